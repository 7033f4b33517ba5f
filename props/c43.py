"""C43: interpolation, splines, quadrature, grids, statistics, error measures and special functions against NumPy, SciPy, mpmath or exact arithmetic."""
import math, cmath
from math import *
from fractions import Fraction as Fr
import numpy as np, mpmath
from scipy import interpolate as si
import scipy.integrate as sint
import fluids.numerics as N
from fluids.numerics import special as SP
from vf.core import *

P = Prop('C43', rule='Data sets of 1 to 40 points, knots, orders, sizes, domains and integrands generated; non-trivial: at least three data points, or an argument inside the function\'s domain.',
         assumptions=['reference values from SciPy, NumPy or 50-digit mpmath; tolerance 1e-12 of the size of the data unless the function states its own'])
X = uf(-10, 10) | pick([0., 1., -1., .5]) | lf(1e-8, 1e8)
def data(seed, n, kind):
    r = np.random.RandomState(seed % 2**32)
    v = {'uniform': lambda: r.uniform(-10, 10, n), 'int': lambda: r.randint(-5, 6, n).astype(float), 'wide': lambda: 10**r.uniform(-6, 6, n)*r.choice([-1, 1], n), 'close': lambda: 1e6 + r.uniform(-1, 1, n), 'positive': lambda: 10**r.uniform(-3, 3, n), 'equal': lambda: np.full(n, r.uniform(-5, 5)), 'sorted': lambda: np.sort(r.uniform(-10, 10, n)), 'reversed': lambda: np.sort(r.uniform(-10, 10, n))[::-1]}[kind]()
    return [float(x) for x in v]
KIND = pick(['uniform', 'int', 'wide', 'close', 'positive', 'equal', 'sorted', 'reversed'])
D = dict(seed=ints(0, 10**8), n=ints(1, 40), kind=KIND)
def grid(seed, n, scale=1.): 
    r = np.random.RandomState(seed % 2**32); return [float(v)*scale for v in np.cumsum(10**r.uniform(-2, 1, n)) - r.uniform(0, 20)]

@P.sub(rec(m=ints(2, 12), at=pick(['inside', 'knot', 'below', 'above', 'first', 'last', 'next to']), u=unit, left=opt(uf(-5, 5)), right=opt(uf(-5, 5)), ex=pick([False, True]), **D), n=900, thorough=15000)
def interp(ctx, seed, n, kind, m, at, u, left, right, ex):
    xs = grid(seed, m); ys = data(seed + 1, m, kind); i = int(u*(m - 1)); f = u*(m - 1) - i
    x = {'inside': lambda: xs[i] + f*(xs[min(i + 1, m - 1)] - xs[i]), 'knot': lambda: xs[i], 'below': lambda: xs[0] - 10*u - 1e-9, 'above': lambda: xs[-1] + 10*u + 1e-9, 'first': lambda: xs[0], 'last': lambda: xs[-1], 'next to': lambda: math.nextafter(xs[i], inf if f > .5 else -inf)}[at]()
    keep = list(xs), list(ys); g = N.interp(x, xs, ys, left, right, ex); ensure((xs, ys) == keep, 'data modified')
    if x < xs[0]: w = left if left is not None else (Fr(ys[0]) + (Fr(ys[1]) - Fr(ys[0]))/(Fr(xs[1]) - Fr(xs[0]))*(Fr(x) - Fr(xs[0])) if ex else ys[0])
    elif x > xs[-1]: w = right if right is not None else (Fr(ys[-2]) + (Fr(ys[-1]) - Fr(ys[-2]))/(Fr(xs[-1]) - Fr(xs[-2]))*(Fr(x) - Fr(xs[-2])) if ex else ys[-1])
    else: 
        j = max(k for k in range(m) if xs[k] <= x)
        w = ys[j] if j == m - 1 else Fr(ys[j]) + (Fr(ys[j + 1]) - Fr(ys[j]))/(Fr(xs[j + 1]) - Fr(xs[j]))*(Fr(x) - Fr(xs[j]))
        ensure(min(ys) - 1e-9*abs(min(ys)) <= g <= max(ys) + 1e-9*abs(max(ys)), 'interpolated value out of the range of the data')
    s = max(abs(v) for v in ys); mag = max([s, abs(float(w))] + ([abs(x - xs[0])/min(b - a for a, b in zip(xs, xs[1:]))*s] if ex else []))
    close(g, float(w), rtol=0, atol=4e-15*mag*(1 + max(abs(v) for v in xs + [x])/min(b - a for a, b in zip(xs, xs[1:]))*1e-2), what='interp(%r)' % x)
    if x in xs: ensure(g == ys[xs.index(x)], 'interpolation at a knot gives %r, not %r' % (g, ys[xs.index(x)]))
    if left is None and right is None and not ex: close(g, float(np.interp(x, xs, ys)), rtol=1e-11, atol=1e-11*s, what='numpy')
    if at not in ('inside', 'next to', 'below', 'above'): ctx.trivial()

@P.sub(rec(m=ints(2, 8), k=ints(2, 8), u=uf(-.3, 1.3), v=uf(-.3, 1.3), atx=pick([None, None, 0, -1, 1]), aty=pick([None, None, 0, -1, 1]), **D), n=500, thorough=8000)
def bilinear(ctx, seed, n, kind, m, k, u, v, atx, aty):
    xs, ys = grid(seed, m), grid(seed + 5, k); z = [data(seed + 10 + i, m, 'uniform') for i in range(k)]
    x = xs[0] + u*(xs[-1] - xs[0]) if atx is None else xs[atx]; y = ys[0] + v*(ys[-1] - ys[0]) if aty is None else ys[aty]
    def cell(a, q): 
        j = max([0] + [i for i in range(len(a) - 1) if a[i] <= q]); return j, (q - a[j])/(a[j + 1] - a[j])
    def ref(x, y):
        i, s = cell(xs, x); j, t = cell(ys, y); return (1 - s)*(1 - t)*z[j][i] + s*(1 - t)*z[j][i + 1] + (1 - s)*t*z[j + 1][i] + s*t*z[j + 1][i + 1]
    i, s = cell(xs, x); j, t = cell(ys, y); big = 10*(1 + abs(s))*(1 + abs(t))
    close(N.interp2d_linear(x, y, xs, ys, z), ref(x, y), rtol=0, atol=1e-11*big, what='interp2d_linear')
    keep = list(xs), list(ys), [list(q) for q in z]
    tck = N.tck_interp2d_linear(xs, ys, z); ensure((xs, ys, z) == keep, 'data modified')
    cx, cy = min(max(x, xs[0]), xs[-1]), min(max(y, ys[0]), ys[-1])
    w = ref(cx, cy)
    close(float(N.bisplev(x, y, tck)), w, rtol=0, atol=1e-11*10, what='bisplev of the linear table')
    close(float(N.py_bisplev(x, y, tck)), w, rtol=0, atol=1e-11*10, what='py_bisplev of the linear table')
    raises(ValueError, N.tck_interp2d_linear, xs, ys, z, kx=2, what='other orders')

@P.sub(rec(m=ints(0, 25), k=ints(1, 5), u=uf(-.3, 1.3), at=opt(ints(0, 40)), ext=pick([0, 0, 0, 1, 2, 3]), big=pick([0]*30 + [6000]), rep=pick([0, 0, 0, 1, 2]), seed=ints(0, 10**8)), n=600, thorough=10000)
def spline(ctx, m, k, u, at, ext, big, rep, seed):
    r = np.random.RandomState(seed % 2**32); m = big or m
    inner = list(np.cumsum(10**r.uniform(-1, .5, m + 2))); a, b = inner[0], inner[-1]; inner = inner[1:-1]
    if inner and rep: inner = sorted(inner + [inner[len(inner)//2]]*min(rep, k - 1))
    t = np.array([a]*(k + 1) + inner + [b]*(k + 1)); c = r.uniform(-5, 5, len(t)); c[len(t) - k - 1:] = 0
    x = a + u*(b - a) if at is None else t[at % len(t)]
    x = float(x); tck = (t, c, k)
    outside = x < a or x > b
    if outside and ext == 2: raises(ValueError, N.py_splev, x, tck, ext=2, what='outside of the domain'); return
    g = N.py_splev(x, tck, ext=ext); w = float(N.splev(x, tck, ext=ext))
    ref = float(si.BSpline(t, c[:len(t) - k - 1], k, extrapolate=True)(x))
    if ext == 1 and outside: ref = 0.
    if ext == 3 and outside: ref = float(si.BSpline(t, c[:len(t) - k - 1], k)(a if x < a else b))
    atol = 1e-11*max(5, abs(ref))*(1 + ((max(a - x, x - b, 0))/min(np.diff(np.unique(t))))**k if outside and ext == 0 else 1)
    close(g, ref, rtol=0, atol=atol, what='py_splev(%r, ext=%d)' % (x, ext)); close(w, ref, rtol=0, atol=atol, what='splev(%r, ext=%d)' % (x, ext))
    if len(t) < 100: close(N.py_splev(x, (list(t), list(c), k), ext), g, rtol=0, atol=0, what='with lists')
    # the port of the surface evaluator
    if m > 12: return
    ky = 1 + (k + 1) % 5; m2 = 4; ty = np.array([0.]*(ky + 1) + [.2, .3, .7, .9] + [1.]*(ky + 1)); nx, ny = len(t) - k - 1, len(ty) - ky - 1
    C = r.uniform(-5, 5, nx*ny); y = float(u*r.uniform()) if at is None else float(ty[at % len(ty)])
    close(N.py_bisplev(x, y, (t, ty, C, k, ky)), float(si.bisplev(x, y, (t, ty, C, k, ky))), rtol=0, atol=1e-11, what='py_bisplev')

FN = {'poly': (lambda x, c: c[0] + c[1]*x + c[2]*x**2 + c[3]*x**5, lambda x, c: c[0]*x + c[1]*x**2/2 + c[2]*x**3/3 + c[3]*x**6/6),
      'exp': (lambda x, c: c[0]*exp(c[1]*x/4), lambda x, c: 4*c[0]*expm1(c[1]*x/4)/c[1]), 'sin': (lambda x, c: c[0]*sin(c[1]*x + c[2]), lambda x, c: -c[0]/c[1]*cos(c[1]*x + c[2])),
      'lorentz': (lambda x, c: 1/(1 + (c[1]*(x - c[2]))**2), lambda x, c: atan(c[1]*(x - c[2]))/c[1]), 'sqrt': (lambda x, c: sqrt(abs(x)), lambda x, c: copysign(2/3*abs(x)**1.5, x)),
      'abs': (lambda x, c: abs(x - c[2]), lambda x, c: copysign((x - c[2])**2/2, x - c[2])), 'step': (lambda x, c: c[0] if x > c[2] else 0., lambda x, c: c[0]*max(x - c[2], 0.))}
@P.sub(rec(f=pick(list(FN)), a=uf(-3, 3), b=uf(-3, 3) | uf(3, 30), c=flist(uf(.2, 3), 4, 4), sg=flist(pick([-1, 1]), 4, 4), rel=pick([1.49e-8, 1e-4, 1e-10]), ab=pick([1.49e-8, 1e-3, 1e-10]), args=pick([False, True])), n=500, thorough=8000)
def quadrature(ctx, f, a, b, c, sg, rel, ab, args):
    c = [u*v for u, v in zip(c, sg)]; fn, F = FN[f]; want = F(b, c) - F(a, c); calls = []
    def h(x, *k): calls.append(x); return fn(x, k if k else c)
    kw = {'args': tuple(c)} if args else {}
    v, e = N.quad_adaptive(h, a, b, epsrel=rel, epsabs=ab, **kw)
    ensure(all(min(a, b) - 1e-12 <= x <= max(a, b) + 1e-12 for x in calls), 'integrand evaluated outside of the interval')
    size = abs(F(b, c)) + abs(F(a, c)) + 1e-10
    tol = max(abs(e), ab, rel*abs(v)) + 1e-12*size
    if f in ('abs', 'step', 'sqrt'): tol += 1e-2*(1 + abs(c[0]) + abs(c[2]) + abs(a) + abs(b))*abs(b - a)    # the error estimate of a kink may be optimistic
    ensure(abs(v - want) <= tol, 'quad_adaptive(%s, %g, %g) = %r, exact %r, reported error %g' % (f, a, b, v, want, e))
    if f in ('poly', 'exp', 'sin') and abs(b - a) < 10: close(v, want, rtol=rel, atol=2*ab + 1e-12*size, what='smooth integrand'); ensure(len(calls) <= 21*255, 'evaluations')
    if f == 'poly' : ensure(len(calls) == 21, 'a polynomial of degree 5 took %d evaluations' % len(calls))
    w, _ = N.quad_adaptive(h, b, a, epsrel=rel, epsabs=ab, **kw); close(w, -v, rtol=1e-12, atol=1e-12*size, what='reversed interval')
    q = N.quad(h, a, b, epsrel=rel, epsabs=ab, **kw)[0]
    if f in ('poly', 'exp', 'sin'): close(q, want, rtol=rel, atol=2*ab + 1e-12*size, what='quad')
    if a == b: ensure(v == 0, 'empty interval')

@P.sub(rec(deg=ints(0, 31), a=uf(-2, 2), w=lf(1e-3, 3), co=flist(uf(-3, 3), 32, 32)), n=300, thorough=4000)
def kronrod(ctx, deg, a, w, co):
    """Gauss-Kronrod rules of 21 (10) points are exact to degree 31 (19)."""
    co = co[:deg + 1]; b = a + w; mid = (a + b)/2
    f = lambda x: sum(q*((x - mid)/w*2)**i for i, q in enumerate(co)); want = sum(q*(1 - (-1)**(i + 1))/(i + 1) for i, q in enumerate(co))*w/2
    v, e = N.fixed_quad_Gauss_Kronrod(f, a, b, N.kronrod_points[10], N.kronrod_weights[10], N.legendre_weights[10], ())
    s = sum(abs(q) for q in co)*w
    close(v, want, rtol=0, atol=4e-13*s, what='Kronrod rule on degree %d' % deg)
    if deg <= 19: close(e, 0, rtol=0, atol=4e-13*s, what='difference of the two rules on degree %d' % deg)
    g, gw = np.polynomial.legendre.leggauss(10); close(v - e, float(sum(q*f(mid + w/2*x) for x, q in zip(g, gw)))*w/2, rtol=0, atol=4e-13*s, what='Gauss rule')

@P.sub(rec(c=flist(uf(-2, 2), 6, 6), a=uf(-1, 1), b=uf(1, 3), p=flist(uf(-1, 1), 4, 4), k=uf(.5, 2)), n=60, thorough=600)
def multiple_integrals(ctx, c, a, b, p, k):
    f = lambda y, x: c[0] + c[1]*x + c[2]*y + c[3]*x*y + c[4]*y*y + c[5]*x*x
    lo, hi = (lambda x: p[0] + p[1]*x), (lambda x: p[2] + p[3]*x*x + 3)
    G = lambda y, x: (c[0] + c[1]*x + c[5]*x*x)*y + (c[2] + c[3]*x)*y*y/2 + c[4]*y**3/3
    xs, ws = np.polynomial.legendre.leggauss(12); want = sum(w*(G(hi(x), x) - G(lo(x), x)) for x, w in zip((a + b)/2 + (b - a)/2*xs, ws))*(b - a)/2
    close(N.dblquad(f, a, b, lo, hi)[0], want, rtol=1e-9, atol=1e-9, what='dblquad')
    close(N.dblquad(lambda y, x, q: q*f(y, x), a, b, lambda x, q: lo(x), lambda x, q: hi(x), args=(k,))[0], k*want, rtol=1e-9, atol=1e-9, what='dblquad with arguments')

@P.sub(rec(how=pick(['grid', 'grid', 'log', 'cumulative', 'diff', 'sums', 'zeros']), a=uf(-100, 100) | X, b=uf(-100, 100) | X, num=ints(0, 60), end=pick([True, False]), step=pick([False, True]), base=pick([10., 2., e]), order=ints(0, 5), dx=opt(lf(1e-3, 1e3)), shape=flist(ints(1, 5), 1, 4), itype=pick([False, True]), **D), n=900, thorough=12000)
def grids(ctx, how, a, b, num, end, step, base, order, dx, shape, itype, seed, n, kind):
    y = data(seed, n, kind); s = max(abs(v) for v in y)
    if how == 'grid':
        g = N.linspace(a, b, num, endpoint=end, retstep=step); w, ws = np.linspace(a, b, num, endpoint=end, retstep=True)
        if step:
            ensure(isinstance(g, tuple) and len(g) == 2, 'retstep: got %r' % (g,)); g, gs = g
            if num > 1: close(gs, float(ws), rtol=1e-12, what='step')
        ensure(isinstance(g, list), 'not a list'); closes(g, [float(v) for v in w], rtol=0, atol=1e-15*(num + 4)*max(abs(a), abs(b)), what='linspace')
        if num > 1: ensure(g[0] == a and (not end or g[-1] == b), 'ends of the grid')
        if num == 50 : ensure(N.linspace(a, b) == N.linspace(a, b, 50), 'default size')
    elif how == 'log':
        a, b = a % 20, b % 20
        g = N.logspace(a, b, num, endpoint=end, base=base); closes(g, [float(v) for v in np.logspace(a, b, num, endpoint=end, base=base)], rtol=1e-12, what='logspace')
    elif how == 'cumulative':
        xs = grid(seed + 3, n); keep = list(y), list(xs); g = N.cumulative_trapezoid(y, dx=dx) if dx else N.cumulative_trapezoid(y, xs)
        acc, out = Fr(0), []
        for i in range(n - 1): acc += (Fr(y[i]) + Fr(y[i + 1]))/2*(Fr(dx) if dx else Fr(xs[i + 1]) - Fr(xs[i])); out.append(float(acc))
        tot = s*(n*dx if dx else xs[-1] - xs[0]) + 1e-300
        ensure(len(g) == n - 1 and (y, xs) == keep, 'length, or data modified'); closes(g, out, rtol=0, atol=1e-14*tot*(n + 3), what='cumulative_trapezoid')
        if n > 2: raises(ValueError, N.cumulative_trapezoid, y, xs[:-1], what='lengths'); raises(ValueError, N.cumulative_trapezoid, y, what='no spacing')
        ensure(N.cumulative_trapezoid([], []) == [], 'empty')
    elif how == 'diff':
        keep = list(y); g = N.diff(y, order); w = np.diff(y, order); ensure(y == keep, 'data modified'); ensure(len(g) == len(w), 'length %d, not %d' % (len(g), len(w)))
        closes(list(g), [float(v) for v in w], rtol=0, atol=0, what='diff of order %d' % order); raises(ValueError, N.diff, y, -1 - order, what='negative order')
    elif how == 'sums':
        ensure(N.cumsum(y) == [float(v) for v in np.cumsum(y)] or all(abs(p - q) <= 1e-13*s*n for p, q in zip(N.cumsum(y), np.cumsum(y))), 'cumsum')
        ensure(len(N.cumsum(y)) == n, 'length'); z = [v/s if s else 1. for v in y]; close(N.product(z), float(math.prod(z)), rtol=1e-12, atol=1e-300, what='product'); ensure(N.product([]) == 1, 'empty product')
    else:
        t = int if itype else float; fill = 3 if itype else 2.5; z = N.full(tuple(shape), fill, t); ref = np.full(shape, fill, t)
        ensure(z == ref.tolist(), 'full%r' % (shape,)); ensure(N.zeros(tuple(shape), t) == np.zeros(shape, t).tolist() and N.zeros(shape[0]) == [0.]*shape[0], 'zeros')
        def leaf(q): return q if not isinstance(q, list) else leaf(q[0])
        ensure(type(leaf(z)) is t, 'type'); 
        if len(shape) > 1: z[0][0] = 7; ensure(shape[0] == 1 or z[1][0] != 7, 'rows share storage')
        raises(ValueError, N.zeros, (1,)*5, what='five dimensions'); raises(ValueError, N.zeros, 3, complex, what='type')
    if n < 3: ctx.trivial()

@P.sub(rec(cut=uf(.3, 4), x=X, tie=opt(ints(0, 39)), eps=lf(1e-15, 1e-3), **D), n=900, thorough=12000)
def statistics(ctx, cut, x, tie, eps, seed, n, kind):
    y = data(seed, n, kind); keep = list(y); s = max(abs(v) for v in y) or 1.
    fy = [Fr(v) for v in y]; mu = sum(fy)/n; var = float(sum((v - mu)**2 for v in fy)/n)
    close(N.mean(y), float(mu), rtol=0, atol=1e-15*n*s, what='mean'); close(N.std(y), sqrt(var), rtol=1e-9, atol=1e-15*n*s, what='std')
    sd = sqrt(var); idx = N.detect_outlier_normal(y, cut); ensure(idx == sorted(set(idx)), 'order of outliers')
    for i, v in enumerate(y):
        d = abs(v - float(mu)) - cut*sd
        if abs(d) > 1e-13*n*s: ensure((i in idx) == (d > 0), 'outlier %d' % i)
    pairs = list(zip(y, y[1:])); up, dn = any(b > a for a, b in pairs), any(b < a for a, b in pairs)
    ensure(N.is_monotonic(y) == (not (up and dn)), 'is_monotonic'); ensure(N.is_increasing(y) == all(b > a for a, b in pairs), 'is_increasing')
    z = sorted(y) ; k = z[tie % n] if tie is not None else x
    import bisect as bs
    want = n if k > z[-1] else bs.bisect_right(z, k) - 1
    ensure(N.binary_search(k, z) == want and N.binary_search(k, z, n) == want, 'binary_search(%r) = %r, not %r' % (k, N.binary_search(k, z), want))
    p = [abs(v) for v in y]
    if sum(p) > 0:
        q = N.normalize(p); close(sum(q), 1, rtol=1e-12, what='sum of the normalised values'); closes(q, [float(Fr(v)/sum(Fr(w) for w in p)) for v in p], rtol=1e-13*n, what='normalize'); ensure(all(0 <= v <= 1 + 1e-15 for v in q), 'range')
    ensure(y == keep, 'data modified')

@P.sub(rec(m=pick([1., 1., -1., 0.]), noise=lf(1e-12, 10), z=pick([False, False, True]), cap=pick([None, 1000., .1]), **D), n=700, thorough=10000)
def errors(ctx, m, noise, z, cap, seed, n, kind):
    y = data(seed, n, kind); r = np.random.RandomState((seed + 77) % 2**32); c = [m*v + noise*float(q) for v, q in zip(y, r.normal(size=n))]
    if z: 
        i = seed % n; y[i] = 0.
        if seed % 3: c[i] = 0.
    ab = [abs(Fr(a) - Fr(b)) for a, b in zip(y, c)]; keep = list(y), list(c)
    rt = dict(rtol=1e-13*(n + 10), atol=1e-300)
    def near(got, want, what): close(got, float(want), what=what, **rt)
    near(N.max_abs_error(y, c), max(ab), 'max_abs_error'); near(N.mean_abs_error(y, c), sum(ab)/n, 'mean_abs_error')
    near(N.max_squared_error(y, c), max(ab)**2, 'max_squared_error'); near(N.mean_squared_error(y, c), sum(v*v for v in ab)/n, 'mean_squared_error')
    big = cap or 1000.; kw = {} if cap is None else {'max_val': cap}
    near(N.max_abs_rel_error(y, c, **kw), max(min(e/abs(Fr(a)), Fr(big)) if a else (Fr(0) if b == 0 else Fr(big)) for a, b, e in zip(y, c, ab)), 'max_abs_rel_error')
    near(N.mean_abs_rel_error(y, c), sum(e/abs(Fr(a)) if a else Fr(b != 0) for a, b, e in zip(y, c, ab))/n, 'mean_abs_rel_error')
    if all(y):
        rel = [e/abs(Fr(a)) for a, e in zip(y, ab)]
        near(N.max_squared_rel_error(y, c), max(rel)**2, 'max_squared_rel_error'); near(N.mean_squared_rel_error(y, c), sum(v*v for v in rel)/n, 'mean_squared_rel_error')
    rats = [Fr(b)/Fr(a) if a else (Fr(1) if b == 0 else Fr(10)) for a, b in zip(y, c)]
    lo, hi = N.min_max_ratios(y, c); near(lo, min([Fr(1)] + rats), 'smallest ratio'); near(hi, max([Fr(1)] + rats), 'largest ratio')
    ensure((y, c) == keep, 'data modified'); ensure(N.max_abs_error(y, y) == 0 == N.mean_squared_error(y, y), 'error of identical data')
    T = N.fit_minimization_targets
    for k, f in (('MeanAbsErr', N.mean_abs_error), ('MaxAbsErr', N.max_abs_error), ('MeanSquareErr', N.mean_squared_error), ('MaxSquareErr', N.max_squared_error), ('MeanRelErr', N.mean_abs_rel_error), ('MaxRelErr', N.max_abs_rel_error)): ensure(T[k](y, c) == f(y, c), k)

Z = uf(-3, 3) | pick([0., 1., -1., .5, 2.]) | lf(1e-8, 1e8) | lf(1e-8, 1e8).map(lambda v: -v)
@P.sub(rec(re=Z, im=Z, n=ints(0, 60), k=ints(-2, 62)), n=900, thorough=15000)
def elementary(ctx, re, im, n, k):
    mpmath.mp.prec = 200
    close(SP.py_hypot(re, im), math.hypot(re, im), rtol=1e-15, what='hypot'); ensure(SP.py_factorial(n) == math.factorial(n) == SP.factorial(n), 'factorial')
    c = math.comb(n, k) if 0 <= k <= n else 0
    ensure(SP.py_comb(n, k) == c, 'comb(%d, %d)' % (n, k)); raises(ValueError, SP.py_factorial, -1 - n, what='negative factorial')
    s, co = N.sincos(re); ensure(s == math.sin(re) and co == math.cos(re), 'sincos')
    close(N.cbrt(re), math.cbrt(re), rtol=1e-15, what='cbrt')
    z = complex(re, im)
    def cc(got, want, tol, what):
        ensure(abs(got - want) <= tol, '%s(%r) = %r, not %r' % (what, z, got, want))
    w = cmath.acos(z)
    if im == 0 and re > 1: w = w.conjugate() if (w.imag < 0) != (SP.py_cacos(z).imag < 0) else w    # on the branch cut
    cc(SP.py_cacos(z), w, 1e-14*(1 + abs(w)), 'acos')
    w = cmath.atanh(z) if z not in (1, -1) else None
    if w is not None: cc(SP.py_catanh(z), w, 1e-14*(1 + abs(w)), 'atanh')
    d = min(abs(z - 1j), abs(z + 1j))
    if d > 1e-6 and not (re == 0 and abs(im) > 1): w = cmath.atan(z); cc(SP.py_catan(z), w, 1e-14*(1 + abs(w) + abs(z))/min(1., d), 'atan')

@P.sub(rec(x=uf(-800, 800) | uf(-5, 5), lim=pick([None, 1e10]), y=lf(1e-300, 1e300) | pick([0., 5e-324]), z=uf(0, 1) | lf(1e-12, 1) | lf(1e-5, 1).map(lambda v: 1 - v), u=uf(-1, 1)), n=600, thorough=8000)
def saturating(ctx, x, lim, y, z, u):
    mpmath.mp.prec = 200
    kw = {} if lim is None else {'trunc': lim}
    g = SP.trunc_exp(x, **kw); ensure(g == (math.exp(x) if x < 709.782712893384 else (lim or 1.7976931348622732e+308)), 'trunc_exp(%r) = %r' % (x, g))
    h = SP.trunc_log(y); ensure(h == (math.log(y) if y else -744.4400719213812), 'trunc_log(%r) = %r' % (y, h)); raises(ValueError, SP.trunc_log, -1 - y, what='log of a negative number')
    v = N.trunc_exp_numpy(np.array([x, 0., 800.]), **kw); closes([float(q) for q in v], [g, 1., lim or 1.7976931348622732e+308], rtol=1e-15, what='trunc_exp_numpy')
    v = N.trunc_log_numpy(np.array([y, 1., 0.])); closes([float(q) for q in v], [h, 0., -744.4400719213812], rtol=1e-15, what='trunc_log_numpy'); raises(ValueError, N.trunc_log_numpy, np.array([y, -1.]), what='log of a negative number')
    o = np.zeros(3); v = N.trunc_exp_numpy(np.array([x, 0., 800.]), out=o, **kw); ensure(v is o, 'the out array')
    z = min(max(z, 0.), .99999); close(N.polylog2(z), float(mpmath.polylog(2, z).real), rtol=1e-7 if z < .9999 else 1.1e-7, atol=1e-300, what='polylog2(%r)' % z)
    for bad in (-1e-9 - z, 1 + 1e-9 + z): raises(ValueError, N.polylog2, bad, what='outside of 0 to 1')

@P.sub(rec(y=uf(-.367, 3) | lf(1e-5, 1e300), yn=uf(.001, .36) | lf(1e-300, .3), m=uf(-5, .999), phi=uf(-1.5, 1.5), x=lf(1e-3, 50), a=lf(.05, 20), nu=uf(0, 4), h=flist(uf(.2, 3), 3, 3), hz=uf(-3, .9)), n=120, thorough=1500)
def special_functions(ctx, y, yn, m, phi, x, a, nu, h, hz):
    mpmath.mp.prec = 120
    def w(v, k=0):
        r = mpmath.lambertw(mpmath.mpf(v), k); return float(r.real)
    close(N.py_lambertw(y).real, w(y), rtol=1e-11, atol=1e-11/min(1., abs(w(y) + 1)), what='py_lambertw(%r)' % y); ensure(isinstance(N.py_lambertw(y), complex), 'complex result')
    close(N.lambertw(y).real, w(y), rtol=1e-10, what='lambertw(%r)' % y)
    close(N.py_lambertw(-yn, -1).real, w(-yn, -1), rtol=1e-11, atol=1e-11/abs(w(-yn, -1) + 1), what='py_lambertw(%r, -1)' % -yn); raises(ValueError, N.py_lambertw, y, 1, what='other branches')
    for nm, got, want in (('ellipe', N.ellipe(m), mpmath.ellipe(m)), ('ellipkinc', N.ellipkinc(phi, m), mpmath.ellipf(phi, m)), ('ellipeinc', N.ellipeinc(phi, m), mpmath.ellipe(phi, m)), ('gammaincc', N.gammaincc(a, x), mpmath.gammainc(a, x, regularized=True)), ('i0', N.i0(x), mpmath.besseli(0, x)), ('i1', N.i1(x), mpmath.besseli(1, x)), ('k0', N.k0(x), mpmath.besselk(0, x)), ('k1', N.k1(x), mpmath.besselk(1, x)), ('iv', N.iv(nu, x), mpmath.besseli(nu, x)), ('erf', N.erf(phi), mpmath.erf(phi)), ('hyp2f1', N.hyp2f1(h[0], h[1], h[2], hz), mpmath.hyp2f1(h[0], h[1], h[2], hz))):
        close(float(got), float(want), rtol=1e-9, atol=1e-200, what=nm)

@P.sub(rec(n=ints(1, 4), lo=flist(uf(-5, 5), 4, 4), wd=flist(lf(1e-2, 1e2), 4, 4), u=flist(unit | pick([0., 1., .5]), 4, 4), x=flist(uf(-30, 30) | uf(-1000, 1000), 4, 4), bounds=pick([False, True]), as_np=pick([False, True]), square=pick([False, True]), q=flist(uf(-2, 2), 4, 4)), n=400, thorough=6000)
def bound_translation(ctx, n, lo, wd, u, x, bounds, as_np, square, q):
    """variables limited to bounds, seen by a solver as unlimited"""
    lo = lo[:n]; hi = [a + w for a, w in zip(lo, wd)]; q = q[:n]; x = x[:n]; kw = {'bounds': list(zip(lo, hi))} if bounds else {'low': lo, 'high': hi}
    f = lambda v: sum(a*b*b for a, b in zip(q, v)); jac = lambda v: [2*a*b for a, b in zip(q, v)]
    fs = lambda v: [f(v)*(i + 1) for i in range(n)]; js = lambda v: [[g*(i + 1) for g in jac(v)] for i in range(n)]
    p = [min(a + t*(b - a), b) for a, b, t in zip(lo, hi, u)]
    F, into, outof = N.translate_bound_func(f, **kw); J, into2, outof2 = N.translate_bound_jac(jac, **kw); FJ, into3, outof3 = N.translate_bound_f_jac(fs if square else f, js if square else jac, as_np=as_np, **kw)
    keep = list(p); t = into(p); ensure(p == keep, 'point modified'); arr = lambda v: np.array(v, dtype=float)
    mk = (lambda v: arr(v)) if as_np else list
    for o, i, m in ((outof, into, list), (outof2, into2, list), (outof3, into3, mk)):
        closes([float(v) for v in o(i(m(p)))], p, rtol=0, atol=1e-12*max(map(abs, lo + hi)), what='there and back again')
        closes([float(v) for v in i(m(p))], [float(v) for v in t], rtol=1e-13, what='the same mapping'); ensure(p == keep, 'point modified')
        z = [float(v) for v in o(m(x))]; ensure(all(a <= v <= b or abs(v - a) < 1e-13*max(abs(a), abs(b)) or abs(v - b) < 1e-13*max(abs(a), abs(b)) for a, b, v in zip(lo, hi, z)), 'outside of the bounds: %r' % z)
    z = outof(x); e = [a + (b - a)/(1 + math.exp(min(-v, 700))) for a, b, v in zip(lo, hi, x)]; closes(z, e, rtol=1e-13, atol=1e-13, what='logistic map')
    close(F(x), f(z), rtol=1e-12, atol=1e-12, what='function')
    dz = [(b - a)*math.exp(-abs(v))/(1 + math.exp(-abs(v)))**2 for a, b, v in zip(lo, hi, x)]; big = max(abs(v) for v in lo + hi)
    want = [g*d for g, d in zip(jac(z), dz)]
    keepx = list(x)
    if max(map(abs, x)) < 300:
        closes(J(x), want, rtol=1e-11, atol=1e-280, what='derivatives'); g, j = FJ(mk(x))
        if square: closes(g, fs(z), rtol=1e-12, atol=1e-12*big**2, what='functions'); ensure(np.allclose(np.array(j, float), [[v*(i + 1) for v in want] for i in range(n)], rtol=1e-11, atol=1e-280), 'Jacobian matrix %r' % (j,))
        else: close(g, f(z), rtol=1e-12, atol=1e-12, what='function'); closes([float(v) for v in j], want, rtol=1e-11, atol=1e-280, what='derivatives with the function')
        ensure(x == keepx, 'point modified')

CMP = uf(-10, 10) | lf(1e-300, 1e300) | pick([0., -0., inf, -inf, 1., -1., 5e-324])
@P.sub(rec(a=flist(CMP, 1, 8), ai=flist(CMP, 8, 8), off=flist(pick([0., 0., 1e-17, 1e-13, 1e-9, 1e-7, 1e-3, 1.]), 8, 8), at=ints(0, 7), rt=pick([0., 1e-15, 1e-12, 1e-8, 1e-7, 1e-2, .5]), ab=pick([0., 0., 1e-12, 1e-3, 1e290]), cplx=pick([False, False, True]), cut=pick([False]*6 + [True]), shape=pick([1, 2, 3, 4])), n=500, thorough=8000)
def comparisons(ctx, a, ai, off, at, rt, ab, cplx, cut, shape):
    """isclose as in math, and the assertions raise exactly when a pair differs by more than the tolerances"""
    b = [v*(1. + d) if d else v for v, d in zip(a, off)]
    for x, y in zip(a, b):
        ensure(N.isclose(x, y, rel_tol=rt, abs_tol=ab) == math.isclose(x, y, rel_tol=rt, abs_tol=ab) == N.isclose(y, x, rel_tol=rt, abs_tol=ab), f'isclose({x!r}, {y!r}, {rt}, {ab})')
    ensure(N.isclose(a[0], b[0]) == math.isclose(a[0], b[0]), 'default tolerances')
    if any(abs(v) > 1e300 for v in a + b + ai): ctx.label('huge'); return
    if cplx: a = [complex(v, w) for v, w in zip(a, ai)]; b = [complex(v, w.imag) for v, w in zip(b, a)]
    def margin(x, y):       # 1 equal within the tolerances, -1 not, 0 too close to tell
        d, lim, low = abs(x - y), max(rt*max(abs(x), abs(y)), ab), min(rt*min(abs(x), abs(y)), ab)
        return 1 if x == y or d <= lim*(1 - 1e-12) else -1 if d > (ab + rt*max(abs(x), abs(y)))*(1 + 1e-12) else 0
    ms = [margin(x, y) for x, y in zip(a, b)]
    if 0 in ms: ctx.label('at the limit'); return
    def accepts(f, *z):
        try: f(*z, rtol=rt, atol=ab)
        except AssertionError: return False
        return True
    for x, y, m in zip(a, b, ms): ensure(accepts(N.assert_close, x, y) == (m > 0), f'assert_close({x!r}, {y!r}, rtol={rt}, atol={ab})')
    f = {1: N.assert_close1d, 2: N.assert_close2d, 3: N.assert_close3d, 4: N.assert_close4d}[shape]
    def nest(v): 
        v = list(v)
        k = max(1, len(v)//2)
        if shape >= 2: v = [v[:k], v[k:]]
        if shape >= 3: v = [v, v[::-1]]
        if shape == 4: v = [v]
        return v
    ensure(accepts(f, nest(a), nest(b)) == all(m > 0 for m in ms), f'{f.__name__} {a} {b}')
    if cut:
        try: f(nest(a), nest(b[:-1]), rtol=rt, atol=ab)
        except (ValueError, AssertionError): pass
        else: ensure(False, 'different lengths accepted')
    w = nest(a)
    for q, z in ((w, w[:-1]), (w[:-1], w), (w, w + w[-1:])):     # another number of rows, blocks, ...
        try: f(q, z, rtol=rt, atol=ab)
        except (ValueError, AssertionError): continue
        ensure(False, f'{f.__name__}: {len(q)} and {len(z)} elements accepted')
    ctx.nontrivial(len(a) > 2)
