"""C51: Chebyshev approximants (fluids.optional.pychebfun)."""
from math import *
import warnings
import numpy as np
from fluids.optional import pychebfun as pc
from fluids.optional.pychebfun import Chebfun, chebfun
from fluids.numerics import horner, chebval
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C51', rule='Waves, exponentials, rational functions and polynomials of any magnitude on generated domains; values, programs of operations, calculus, roots and conversions against the functions themselves. Non-trivial: degree above one.',
         assumptions=['functions resolved by at most a few hundred coefficients', 'tolerances: rounding of the coefficients, of the mapping of the domain and, for derivatives and monomials, their amplification', 'roots: simple, separated and away from the ends'])
EPS = 2.3e-16
class Fn:
    """s*(a sin(w t + p) + b exp(c t) + polynomial(t) + k/(t^2 + q^2)), t in [-1, 1] over the domain"""
    def __init__(self, dom, s, a, w, p, b, c, q, r, k): self.__dict__.update(locals())
    def t(self, x): lo, hi = self.dom; return (2*np.asarray(x, float) - lo - hi)/(hi - lo)
    def d(self, x, n=0):
        t = self.t(x); z = self.a*self.w**n*np.sin(self.w*t + self.p + n*pi/2) + self.b*self.c**n*np.exp(self.c*t)
        z = z + sum(v*factorial(i)/factorial(i - n)*t**(i - n) for i, v in enumerate(self.q) if i >= n)
        if self.k: z = z + {0: lambda: 1/(t*t + self.r**2), 1: lambda: -2*t/(t*t + self.r**2)**2, 2: lambda: (6*t*t - 2*self.r**2)/(t*t + self.r**2)**3}[n]()*self.k
        lo, hi = self.dom; return self.s*z*(2/(hi - lo))**n
    def __call__(self, x): return self.d(x)
    def size(self): return abs(self.s)*(abs(self.a) + abs(self.b)*exp(abs(self.c)) + sum(map(abs, self.q)) + abs(self.k)/self.r**2)
    def slope(self): return abs(self.s)*(abs(self.a)*self.w + abs(self.b*self.c)*exp(abs(self.c)) + sum(i*abs(v) for i, v in enumerate(self.q)) + 1.3*abs(self.k)/self.r**3)
    def integral(self): 
        lo, hi = self.dom; F = lambda t: (-self.a/self.w*cos(self.w*t + self.p) + (self.b/self.c*exp(self.c*t)) + sum(v*t**(i + 1)/(i + 1) for i, v in enumerate(self.q)) + self.k/self.r*atan(t/self.r))
        return self.s*(F(1) - F(-1))*(hi - lo)/2
C = uf(-2, 2) | pick([0., 1.]); 
DOM = rec(off=uf(-3, 3) | pick([0., -.5]), width=lf(.01, 50) | pick([2., 1.]))
FN = rec(s=pick([1.]) | lf(1e-15, 1e12), a=C, w=uf(.1, 6), p=uf(-3, 3), b=C, c=uf(.05, 2) | uf(-2, -.05), q=flist(C, 0, 5), r=uf(.6, 2), k=pick([0., 0., 1.]))
def bounds(dom): lo = dom['off']*dom['width']; return lo, lo + dom['width']
def make(dom, fn):
    d = bounds(dom); f = Fn(d, **fn)
    return d, f
def shift(d): return 1 + 2*max(abs(d[0]), abs(d[1]))/(d[1] - d[0])
U = flist(uf(0, 1) | pick([0., 1., .5]), 1, 8)
def xs_of(d, u): return [min(max(d[0] + (d[1] - d[0])*v, d[0]), d[1]) for v in u]
@P.sub(rec(dom=DOM, fn=FN, u=U, N=pick([None, None, 15, 24, 50, 64]), how=pick(['chebfun', 'from_function', 'build']), default=pick([False]*5 + [True])), n=500, thorough=8000)
def represents(ctx, dom, fn, u, N, how, default):
    if default: dom = dict(off=-.5, width=2.)
    d, f = make(dom, fn)
    if f.size() == 0: raise SkipCase('zero')
    tol = f.size()*(1e-13 if N is None else 0) + 30*EPS*shift(d)*f.slope()
    if N is not None or how == 'build':
        # best approximations of this degree: bounds of the coefficients of each part
        n = 2**(int(log2(N or 15)) + 1); rho = 1 if not f.k else f.r + sqrt(1 + f.r**2)
        tail = abs(f.a)*(e*f.w/2/n)**n*4*sqrt(n) + abs(f.b)*(e*abs(f.c)/2/n)**n*4*sqrt(n) + (abs(f.k)*20/(f.r*(rho - 1))*rho**-n if f.k else 0)
        tol += abs(f.s)*tail + f.size()*1e-13
    if how == 'build': F = pc.build_pychebfun(lambda x: float(f(x)), d, N=N) if N is not None else pc.build_pychebfun(lambda x: float(f(x)), d)
    elif how == 'chebfun': F = chebfun(f, *(() if default else (d,)), **({} if N is None else {'N': N}))
    else: F = Chebfun.from_function(f, *(() if default else (d,)), **({} if N is None else {'N': N}))
    xs = xs_of(d, u); ensure(tuple(F.domain()) == tuple(d), 'domain')
    closes(list(map(float, F(np.array(xs)))), list(map(float, f(np.array(xs)))), rtol=0, atol=tol, what='values'); close(float(F(xs[0])), float(f(xs[0])), rtol=0, atol=tol, what='scalar value')
    co = F.coefficients(); ensure(len(co) == F.size() == len(F.values()), 'size')
    closes([float(v) for v in np.polynomial.chebyshev.chebval(f.t(np.array(xs)), co)], [float(v) for v in f(np.array(xs))], rtol=0, atol=tol + 10*EPS*np.sum(np.abs(co)), what='coefficients')
    pts = F._ui_to_ab(Chebfun.interpolation_points(F.size())); closes([float(v) for v in F.values()], [float(v) for v in f(pts)], rtol=0, atol=tol, what='values at the nodes')
    for G in (chebfun(F), Chebfun.from_fun(F), chebfun(F.values(), d), Chebfun.from_data(F.values(), d), chebfun(chebcoeff=co, domain=d), Chebfun.from_coeff(co, d, prune=False)):
        ensure(tuple(G.domain()) == tuple(d), 'domain of a copy'); close(float(G(xs[0])), float(F(xs[0])), rtol=1e-12, atol=f.size()*2e-13, what='copy')
    if F.size() < 3: ctx.trivial()

OPS = pick(['add', 'sub', 'mul', 'div', 'adds', 'radds', 'subs', 'rsubs', 'muls', 'rmuls', 'divs', 'rdivs', 'neg', 'sin', 'exp', 'cos', 'tanh', 'arctan', 'sqrt', 'log', 'pow', 'powf', 'restrict', 'iadd'])
@P.sub(rec(dom=DOM, f=FN, g=FN, ops=flist(rec(op=OPS, c=uf(.3, 2) | uf(-2, -.3), n=ints(2, 3)), 1, 5), u=U), n=400, thorough=6000)
def programs(ctx, dom, f, g, ops, u):
    f, g = dict(f, s=1.), dict(g, s=1.); d, f = make(dom, f); _, g = make(dom, g); F, G = chebfun(f, d), chebfun(g, d); rf, rg = f, g; scale = max(f.size(), g.size(), 1.); amp = max(f.slope(), g.slope(), 1.)*shift(d)
    for o in ops:
        k, c, n = o['op'], o['c'], o['n']; grid = np.linspace(d[0], d[1], 101); mf, mg = np.max(np.abs(rf(grid))), np.max(np.abs(rg(grid)))
        if k in ('mul', 'pow', 'exp') and (mf > 30 or mg > 30): continue
        if k in ('sin', 'cos', 'exp', 'tanh', 'arctan', 'sqrt', 'log') and mf > 10: continue
        if k == 'log' and mf < .2 or k in ('sin', 'tanh', 'arctan') and mf < 1e-2*scale: continue   # lost in the rounding of the samples
        grow = 1.
        def step(F2, r2): 
            nonlocal F, rf; F = F2; old = rf; rf = lambda x: r2(old, x)
        h = rg
        if k == 'add': step(F + G, lambda o, x, c=c, n=n: o(x) + h(x))
        elif k == 'iadd': F += G; o_ = rf; rf = lambda x, o_=o_: o_(x) + h(x)
        elif k == 'sub': step(F - G, lambda o, x, c=c, n=n: o(x) - h(x))
        elif k == 'mul': step(F*G, lambda o, x, c=c, n=n: o(x)*h(x)); grow = 2*max(mf, mg, 1)
        elif k == 'div':
            if mg > 5: continue
            step(F/(G*G + 1), lambda o, x, c=c, n=n: o(x)/(h(x)**2 + 1)); grow = 3*max(mf, mg, 1)**2
        elif k == 'adds': step(F + c, lambda o, x, c=c, n=n: o(x) + c)
        elif k == 'radds': step(c + F, lambda o, x, c=c, n=n: o(x) + c)
        elif k == 'subs': step(F - c, lambda o, x, c=c, n=n: o(x) - c)
        elif k == 'rsubs': step(c - F, lambda o, x, c=c, n=n: c - o(x))
        elif k == 'muls': step(F*c, lambda o, x, c=c, n=n: o(x)*c); grow = 2
        elif k == 'rmuls': step(c*F, lambda o, x, c=c, n=n: o(x)*c); grow = 2
        elif k == 'divs': step(F/c, lambda o, x, c=c, n=n: o(x)/c); grow = 4
        elif k == 'rdivs':
            if mf > 5: continue
            step(c/(F*F + 1), lambda o, x, c=c, n=n: c/(o(x)**2 + 1)); grow = 3*max(mf, 1)**2
        elif k == 'neg': step(-F, lambda o, x, c=c, n=n: -o(x))
        elif k == 'pow': step(F**n, lambda o, x, n=n: o(x)**n); grow = n*max(mf, 1)**(n - 1)
        elif k == 'powf':
            if mf > 2 or mg > 2: continue
            step((F*F + 1)**G, lambda o, x, n=n: (o(x)**2 + 1)**h(x)); grow = 6*max(mf, 1)*5**mg
        elif k == 'sqrt': step((F*F + 1).sqrt(), lambda o, x, c=c, n=n: np.sqrt(o(x)**2 + 1)); grow = max(mf, 1)
        elif k == 'log': step((F*F + 1).log(), lambda o, x, c=c, n=n: np.log(o(x)**2 + 1)); grow = 2*max(mf, 1)
        elif k == 'restrict':
            lo, hi = d[0] + .2*(d[1] - d[0]), d[1] - .1*(d[1] - d[0]); F, G = F.restrict((lo, hi)), G.restrict((lo, hi)); d = (lo, hi)
        else:
            if k == 'exp' and mf > 4: continue
            step(getattr(F, k)(), lambda o, x, k=k: getattr(np, k)(o(x))); grow = exp(min(mf, 4)) if k == 'exp' else 1
        ensure(isinstance(F, Chebfun), 'type after ' + k); ensure(tuple(F.domain()) == tuple(d), 'domain after ' + k)
        amp *= grow; scale = max(scale, np.max(np.abs(rf(np.linspace(d[0], d[1], 101))))); ctx.label(k)
        xs = np.array(xs_of(d, u)); closes([float(v) for v in F(xs)], [float(v) for v in rf(xs)], rtol=0, atol=1e-12*scale*(1 + F.size()/50)*max(1, amp*.01), what='values after ' + ', '.join(x['op'] for x in ops[:ops.index(o) + 1]))
        if F.size() > 400 or amp > 1e6: break
    ensure((F == F) is True and not (F != F), 'equality'); ensure(not (F == F + 1.), 'inequality')

@P.sub(rec(dom=DOM, fn=FN, gn=FN, u=U, n=ints(1, 2)), n=400, thorough=6000)
def calculus(ctx, dom, fn, gn, u, n):
    d, f = make(dom, fn); g = Fn(d, **gn); w = d[1] - d[0]
    if f.size() == 0 or g.size() == 0: raise SkipCase('zero')
    F, G = chebfun(f, d), chebfun(g, d); xs = np.array(xs_of(d, u)); N = F.size(); mt = shift(d)*EPS*30
    D = F.differentiate(n) if n > 1 or u[0] > .5 else F.differentiate(); ensure(tuple(D.domain()) == tuple(d), 'domain')
    closes([float(v) for v in D(xs)], [float(v) for v in f.d(xs, n)], rtol=0, atol=f.size()*(1e-13*N**(2*n) + mt*40*max(f.w, 5)**(n + 1)/f.r**2)*(2/w)**n, what='derivative %d' % n)
    close(float(F.diff()(xs[0])), float(F.differentiate()(xs[0])), rtol=1e-12, atol=1e-14*f.size()/w, what='diff'); 
    I = F.integrate(); tol = f.size()*w*(1e-13*N + mt*20); close(float(I(d[0])), 0., rtol=0, atol=tol, what='primitive starts at zero'); close(float(I(d[1])), f.integral(), rtol=0, atol=tol*3, what='primitive at the end')
    close(float(F.sum()), f.integral(), rtol=0, atol=tol*3, what='sum'); closes([float(v) for v in I.differentiate()(xs)], [float(v) for v in f(xs)], rtol=0, atol=f.size()*(1e-13*(N + 1)**2 + mt*20), what='derivative of the primitive'); close(float(F.cumsum()(xs[0])), float(I(xs[0])), rtol=1e-12, atol=tol, what='cumsum')
    sc = f.size()*g.size()*w; x, wt = np.polynomial.legendre.leggauss(120); t = d[0] + w/2*(x + 1); want = float(np.sum(wt*f(t)*g(t))*w/2)
    close(float(F.dot(G)), want, rtol=0, atol=sc*(1e-12 + mt*10), what='scalar product'); nn = float(np.sum(wt*f(t)**2)*w/2); close(float(F.norm())**2, nn, rtol=0, atol=f.size()**2*w*(1e-12 + mt*10), what='norm')

@P.sub(rec(dom=DOM, kind=pick(['poly', 'poly', 'wave', 'manywave', 'linear', 'none']), r=flist(uf(-.97, .97), 1, 6), w=uf(2, 25), p=uf(-3, 3), s=lf(1e-12, 1e9), c=uf(-.5, .5), w2=uf(40, 150)), n=350, thorough=5000)
def roots(ctx, dom, kind, r, w, p, s, c, w2):
    d = bounds(dom); W = d[1] - d[0]; T = lambda x: (2*np.asarray(x) - d[0] - d[1])/W; sg = 1e-9
    if kind in ('wave', 'manywave'):
        w = w2 if kind == 'manywave' else w; f = lambda x: s*np.sin(w*T(x) + p); rt = [(k*pi - p)/w for k in range(-200, 200)]
    elif kind == 'none': f = lambda x: s*(np.sin(w*T(x) + p) + 1.1); rt = []
    else:
        rt = sorted(r if kind == 'poly' else r[:1])
        if any(b - a < .05 for a, b in zip(rt, rt[1:])): raise SkipCase('close roots')
        f = lambda x: s*np.prod([T(x) - v for v in rt], axis=0)*(np.exp(c*T(x)) if kind == 'poly' else 1.); sg = 1e-6 if len(rt) > 4 else 1e-8
    if any(abs(abs(v) - 1) < 1e-3 for v in rt): raise SkipCase('root at an end')
    # roots at the splitting points of the recursion
    if kind == 'manywave' and any(abs(v - .0123456789) < 1e-4 for v in rt): raise SkipCase('root at a split')
    F = chebfun(f, d); got = sorted(float(v) for v in F.roots()); want = [d[0] + (v + 1)*W/2 for v in sorted(rt) if -1 < v < 1]
    ensure(len(got) == len(want), '%d roots found, %d expected (size %d)' % (len(got), len(want), F.size())); closes(got, want, rtol=0, atol=sg*W + 1e-13*(abs(d[0]) + W), what='roots'); ctx.label('%s %s' % (kind, 'large' if F.size() > 100 else ''))
    if len(want) < 2: ctx.trivial()
    if want and kind != 'none':
        goal = s*.3 if kind == 'wave' else 0.; calls = []
        def g(x): calls.append(x); return float(f(x)) + goal
        rs, fun = pc.build_solve_pychebfun(g, goal, d, find_roots=len(want)); ensure(len(calls) == len(set(calls)), 'function evaluated twice at a point')
        if kind != 'manywave' and (kind != 'wave' or w < 5):
            ok = [v for v in rs if d[0] < v < d[1]]; ensure(all(any(abs(v - x) <= (sg*10 + 1e-5)*W for x in want) for v in ok) and all(any(abs(v - x) <= (sg*10 + 1e-5)*W for v in ok) for x in want), 'solutions %r, expected %r' % (ok, want))

@P.sub(rec(dom=DOM, co=flist(C, 1, 13), s=lf(1e-9, 1e9) | pick([1.]), u=U, fn=FN), n=500, thorough=8000)
def conversions(ctx, dom, co, s, u, fn):
    d = bounds(dom); co = [v*s for v in co]; n = len(co); W = d[1] - d[0]; F = Chebfun.from_coeff(co, d, prune=False); xs = xs_of(d, u)
    if not any(co): raise SkipCase('zero')
    for x in xs:
        t = (2*x - d[0] - d[1])/W; want = sum(v*cos(k*acos(max(-1, min(1, t)))) for k, v in enumerate(co)); sz = sum(map(abs, co)); tol = sz*(1e-14*n + 10*EPS*n*n*shift(d)); amp = 2.5**n*EPS*20*sz
        close(float(F(x)), want, rtol=0, atol=tol + 1e-13*sz, what='evaluation')
        for src in (F, None):
            args = (F,) if src is not None else (co, d); cp = pc.chebfun_to_poly(*args); ensure(isinstance(cp, list), 'list'); close(horner(cp, t), want, rtol=0, atol=tol + amp, what='monomials on the unit domain')
            pl = pc.cheb_to_poly(*args); big = sum(abs(v)*max(1, (abs(x) + abs(d[0] + d[1])/2)*2/W)**k*2.5**k for k, v in enumerate(co)); close(horner(pl, x), want, rtol=0, atol=tol + amp + 30*EPS*big*n, what='monomials of x')
            txt = pc.chebfun_to_poly(*args, text=True); env = {'horner': horner, 'x': x}; lines = txt.split('\n'); exec(lines[0], env); close(eval(lines[1], env), want, rtol=0, atol=tol + amp, what='text')
        k, m = pc.cheb_range_simplifier(*d); close(chebval(m*(x + k), co), want, rtol=0, atol=tol + 1e-13*sz*n, what='range simplifier'); close(eval(pc.cheb_range_simplifier(*d, text=True), {'chebval': chebval, 'x': x, 'coeffs': co}), want, rtol=0, atol=tol + 1e-13*sz*n, what='range simplifier, text')
    a = np.array(co); closes([float(v) for v in Chebfun.polyfit(Chebfun.polyval(a))], co, rtol=0, atol=1e-13*sz, what='coefficients of values'); closes([float(v) for v in Chebfun.polyval(Chebfun.polyfit(a))], co, rtol=0, atol=1e-13*sz, what='values of coefficients')
    pts = Chebfun.interpolation_points(n); closes([float(v) for v in pts], [cos(pi*k/(n - 1)) for k in range(n)] if n > 1 else [0.], rtol=0, atol=1e-14, what='nodes')
    sm = Chebfun.sample_function(lambda t: np.polynomial.chebyshev.chebval(t, a), n); closes([float(v) for v in Chebfun.polyfit(sm)], co + [0.], rtol=0, atol=1e-12*sz, what='coefficients of the sampled polynomial')
    # a given number of points resolves polynomials of its degree without adapting
    m = n - 1
    if m in (4, 8): G = Chebfun.from_function(F, d, N=m//2 + int(u[0]*(m//2 - 1))); closes([float(G(x)) for x in xs], [float(F(x)) for x in xs], rtol=0, atol=1e-12*sz*shift(d), what='polynomial of the largest degree for a given number of points')
    b = Chebfun.basis(n - 1); t = 2*u[0] - 1; close(float(b(t)), cos((n - 1)*acos(t)), rtol=0, atol=1e-12, what='basis function'); i = Chebfun.identity(d); close(float(i(xs[0])), xs[0], rtol=1e-12, atol=1e-13*(abs(d[0]) + W), what='identity')
    V = chebfun(lambda x: np.array([np.sin(x), x*x, np.exp(-.1*x)]).T, d)
    for j, z in enumerate((sin, lambda x: x*x, lambda x: exp(-.1*x))): close(float(V[j](xs[0])), z(xs[0]), rtol=1e-11, atol=1e-11*(1 + max(map(abs, d))**2), what='component'); close(float(V(xs[0])[j]), z(xs[0]), rtol=1e-11, atol=1e-11*(1 + max(map(abs, d))**2), what='vector value')
    other = Chebfun.identity((d[0], d[1] + 1)); raises(Chebfun.DomainMismatch, lambda: F + other, what='other domain'); raises(Chebfun.DomainMismatch, lambda: F*other, what='other domain'); raises(ValueError, F.restrict, (d[0] - 1, d[1]), what='larger domain'); raises(ValueError, F.restrict, (d[0], d[1] + 1), what='larger domain')
    raises(TypeError, chebfun, None, what='no function'); c = chebfun(3., d); close(float(c(xs[0])), 3., rtol=1e-15, what='constant'); raises(Chebfun.NoConvergence, chebfun, lambda x: np.abs(x - d[0] - W*.4337), d, what='kink')
