"""C24: continuous particle size distributions against direct numerical integration of their documented densities."""
from math import *
import numpy as np
import fluids
from fluids.particle_size_distribution import *
from fluids.particle_size_distribution import pdf_lognormal_basis_integral, pdf_Gates_Gaudin_Schuhman_basis_integral, pdf_Rosin_Rammler_basis_integral
from vf.core import *
P = Prop('C24', rule='Lognormal (spread 0.05..1.2), Gates-Gaudin-Schuhman and Rosin-Rammler (exponent 0.6..6), custom (scipy) and interpolated distributions, characteristic size 1e-7..1e-2 m, order 0..3, untruncated or truncated on one or both sides, sizes from far below to far above the support, other bases -1..4 including fractions, wherever the moment exists. Non-trivial: a size inside the support with cumulative value in (1e-6, 1 - 1e-6).',
         assumptions=['composite 20-point Gauss-Legendre integration in log diameter (accurate to about 1e-12) of the documented densities is the reference'])
GX, GW = np.polynomial.legendre.leggauss(20)
def gauss(f, a, b, n=60):
    if b <= a: return 0.
    e = np.linspace(a, b, n + 1); h = np.diff(e)/2; m = (e[1:] + e[:-1])/2
    x = (m[:, None] + h[:, None]*GX).ravel(); return float(np.sum((h[:, None]*GW).ravel()*f(x)))
dist = dict(kind=pick('LN', 'LN', 'GGS', 'RR'), d=lf(1e-7, 1e-2), s=uf(.05, 1.2), m=uf(.6, 6.), order=pick(3, 3, 0, 1, 2), trunc=pick('no', 'no', 'lo', 'hi', 'both'), lo=uf(.02, .9), hi=uf(.05, 1.))
N_ = pick(None, 0, 1, 2, 3, 2.5, .5, -1, 4)
class Ref:
    """the documented density on its support, in any basis"""
    def __init__(self, kind, d, s, m, order, trunc, lo, hi):
        self.kind, self.d, self.s, self.m, self.order = kind, d, s, m, order; self.a, self.b = 0., inf
        span = (lambda x: d*exp(x*4*s)) if kind == 'LN' else (lambda x: d*x) if kind == 'GGS' else (lambda x: d*x**(1/m)*2)
        kw = {}
        if trunc in ('lo', 'both'): self.a = kw['d_min'] = span(lo*.9 if kind != 'LN' else lo*.9 - 1)
        if trunc in ('hi', 'both'): self.b = kw['d_max'] = span(max(hi, lo) if kind != 'LN' else max(hi, lo) - .8) if trunc == 'both' else span(hi)
        if kind == 'GGS': self.b = min(self.b, d)
        cls = dict(LN=PSDLognormal, GGS=PSDGatesGaudinSchuhman, RR=PSDRosinRammler)[kind]
        self.k = d**-m
        args = dict(LN=dict(d_characteristic=d, s=s), GGS=dict(d_characteristic=d, m=m), RR=dict(k=self.k, m=m))[kind]
        self.psd = cls(order=order, **args, **kw); self.truncated = bool(kw)
    def logpdf_u(self, u):      # log of d*f(d), u = ln d
        if self.kind == 'LN': return -.5*((u - log(self.d))/self.s)**2 - log(self.s*sqrt(2*pi))
        if self.kind == 'GGS': return log(self.m) + self.m*(u - log(self.d))
        z = self.m*(u - log(self.d)); return log(self.m) + z - np.exp(z)
    def exists(self, p): return self.kind == 'LN' or self.m + p > .15
    def moment(self, p, x=inf):
        """integral of (d/d_char)^p f over the support up to x"""
        L = log(self.d)
        if self.kind == 'LN': c = L + p*self.s**2; lo, hi = c - 14*self.s, c + 14*self.s
        else: lo, hi = L - 60/(self.m + p), L + log(900.)/self.m if self.kind == 'RR' else L
        lo = max(lo, log(self.a) if self.a > 0 else -inf); hi = min(hi, log(self.b) if self.b < inf else inf, log(x) if 0 < x < inf else inf)
        if x <= 0: return 0.
        g = lambda u: np.exp(self.logpdf_u(u) + p*(u - L))
        if self.kind == 'RR' and lo < L - 8/self.m < hi: return gauss(g, lo, L - 8/self.m) + gauss(g, L - 8/self.m, hi)
        return gauss(g, lo, hi)
    def cdf(self, x, p): t = self.moment(p); return self.moment(p, x)/t
    def pdf(self, x, p):
        if not self.a <= x <= self.b: return 0.
        return exp(float(self.logpdf_u(log(x))) + p*log(x/self.d))/x/self.moment(p)
def mk(c): return Ref(*[c[k] for k in ('kind', 'd', 's', 'm', 'order', 'trunc', 'lo', 'hi')])
def size(r, u): return r.d*exp((u - .5)*2*(4*r.s if r.kind == 'LN' else 6/r.m if r.kind == 'RR' else 3/r.m))
@P.sub(rec(u=inear(uf(0., 1.), [.5]), n=N_, edge=pick('', '', '', '', 'lo', 'hi', 'below', 'above'), **dist), n=900)
def density_and_cumulative(ctx, u, n, edge, **c):
    r = mk(c); p = 0 if n is None else n - r.order
    if not r.exists(p): raise SkipCase
    x = size(r, u)
    if edge == 'lo' and r.a: x = r.a
    if edge == 'hi' and r.b < inf: x = r.b
    if edge == 'below': x = max(r.a, r.d*1e-9)*.5
    if edge == 'above': x = (r.b if r.b < inf else r.d*1e6)*2
    if r.moment(p) < 1e-7*(1 if r.kind != 'LN' else exp(p*p*r.s**2/2)): raise SkipCase      # next to nothing is left by the truncation
    F = r.cdf(x, p); cond = 1e-9 + 1e-13/r.moment(p)
    got = r.psd.cdf(x, n=n)
    close(got, F, 1e-7, 1e-8 + cond, 'cumulative fraction'); ensure(-1e-12 <= got <= 1 + 1e-9, 'cumulative fraction %r', got)
    f = r.pdf(x, p); close(r.psd.pdf(x, n=n), f, 1e-6, 1e-7/r.d*1e-3, 'density'); ensure(r.psd.pdf(x, n=n) >= 0, 'negative density')
    ctx.nontrivial(1e-6 < F < 1 - 1e-6); ctx.label(r.kind + ('-truncated' if r.truncated else ''))
@P.sub(rec(fr=inear(uf(1e-4, 1 - 1e-4), [.5, .1, .9]), n=N_, **dist), n=400)
def quantiles(ctx, fr, n, **c):
    r = mk(c); p = 0 if n is None else n - r.order
    if not r.exists(p) or r.moment(p) < 1e-6*(1 if r.kind != 'LN' else exp(p*p*r.s**2/2)): raise SkipCase
    d = r.psd.dn(fr, n=n); close(r.cdf(d, p), fr, 1e-6, 1e-7, 'cumulative fraction at the quantile')
    ensure(r.a*(1 - 1e-9) <= d <= r.b*(1 + 1e-9), 'quantile %r outside the support %r..%r', d, r.a, r.b)
    raises(ValueError, r.psd.dn, -fr, what='negative fraction'); raises(ValueError, r.psd.dn, 1 + fr, what='fraction above 1')
    if r.truncated and 'd_min': close(r.psd.dn(0.), r.a, 1e-12, what='dn(0)')
    ctx.nontrivial(True)
@P.sub(rec(p=pick(range(-1, 6)), q=pick(range(-1, 6)), frac=pick(0, 0, 0, .5), **dist), n=500)
def mean_sizes(ctx, p, q, frac, **c):
    r = mk(c); p = p + frac
    if not (r.exists(p - r.order) and r.exists(q - r.order)): raise SkipCase
    if min(r.moment(x - r.order) for x in (p, q)) < 1e-6*(1 if r.kind != 'LN' else max(1., exp((p - r.order)**2*r.s**2/2), exp((q - r.order)**2*r.s**2/2))): raise SkipCase
    if p == q:
        h = 1e-3; want = r.d*(r.moment(p - r.order + h)/r.moment(p - r.order - h))**(1/(2*h))    # exp of the mean log, as the limit
        tol = 1e-4 + 5e-7*(exp((p - r.order)**2*r.s**2/2) if r.kind == 'LN' else gamma(1 + max(0, p - r.order)/r.m))/r.moment(p - r.order)
        if tol > .01: raise SkipCase      # p and q are 2e-9 apart: rounding decides
        close(r.psd.mean_size(p, q), want, tol, what='D[%r, %r]' % (p, q))
    else:
        want = r.d*(r.moment(p - r.order)/r.moment(q - r.order))**(1./(p - q)); close(r.psd.mean_size(p, q), want, 1e-7, what='D[%r, %r]' % (p, q))
        close(r.psd.mean_size_ISO(p - q, q), want, 1e-7, what='ISO mean')
    ctx.nontrivial(True)
    if r.exists(3 - r.order) and r.exists(2 - r.order) and r.moment(2 - r.order) > 1e-6: close(r.psd.vssa, 6/(r.d*r.moment(3 - r.order)/r.moment(2 - r.order)), 1e-6, what='specific surface')
@P.sub(rec(us=flist(uf(0., 1.), 2, 8), n=N_, pts=ints(2, 30), **dist), n=250)
def discretised(ctx, us, n, pts, **c):
    """fractions between sizes are differences of the cumulative; grids go where they should"""
    r = mk(c); p = 0 if n is None else n - r.order
    if not r.exists(p) or r.moment(p) < 1e-6*(1 if r.kind != 'LN' else exp(p*p*r.s**2/2)): raise SkipCase
    ds = sorted(size(r, u) for u in us); F = [r.cdf(x, p) for x in ds]
    closes(r.psd.cdf_discrete(ds, n=n), F, 1e-6, 1e-7, what='cdf_discrete'); fr = r.psd.fractions_discrete(ds, n=n)
    closes(fr, [F[0]] + [b - a for a, b in zip(F, F[1:])], 1e-6, 2e-7, what='fractions_discrete'); close(sum(fr), F[-1], 1e-6, 1e-7, 'sum of fractions'); ensure(min(fr) > -1e-9, 'negative fraction')
    close(r.psd.delta_cdf(ds[0], ds[-1], n=n), F[-1] - F[0], 1e-6, 2e-7, 'delta_cdf')
    g = r.psd.ds_discrete(pts=pts); ensure(len(g) == pts, 'grid of %d points', len(g))
    close(r.cdf(g[0], 0), 1e-9, 1e-2, 1e-8, 'grid start'); close(r.cdf(g[-1], 0), 1 - 1e-9, 0, 1e-7, 'grid end')
    ensure(all(b > a for a, b in zip(g, g[1:])), 'grid not increasing'); ctx.nontrivial(1e-6 < F[-1])
@P.sub(rec(u=uf(.02, .98), m2=pick(-2, -1, 0, 1, 2, .5), **{k: dist[k] for k in ('kind', 'd', 's', 'm')}), n=300)
def module_functions(ctx, u, m2, kind, d, s, m):
    """the bare density, cumulative and basis-integral functions"""
    r = Ref(kind, d, s, m, 3, 'no', .5, .5); x = size(r, u)
    if not r.exists(m2): raise SkipCase
    pf, cf, bf, a = dict(LN=(pdf_lognormal, cdf_lognormal, pdf_lognormal_basis_integral, dict(d_characteristic=d, s=s)), GGS=(pdf_Gates_Gaudin_Schuhman, cdf_Gates_Gaudin_Schuhman, pdf_Gates_Gaudin_Schuhman_basis_integral, dict(d_characteristic=d, m=m)), RR=(pdf_Rosin_Rammler, cdf_Rosin_Rammler, pdf_Rosin_Rammler_basis_integral, dict(k=d**-m, m=m)))[kind]
    close(cf(x, **a), r.cdf(x, 0), 1e-8, 1e-10, 'cumulative'); close(pf(x, **a), r.pdf(x, 0), 1e-8, 1e-12/d, 'density')
    y = x*(1 + u)
    w = (r.moment(m2, y) - r.moment(m2, x)); close((bf(y, n=m2, **a) - bf(x, n=m2, **a))/d**m2, w, 1e-6, 1e-10*(1 + r.moment(m2)), 'integral of d^n f'); ctx.nontrivial(w > 1e-6)
@P.sub(rec(fam=pick('lognorm', 'weibull', 'gamma'), d=lf(1e-6, 1e-3), s=uf(.2, .7), n=pick(None, 0, 1, 2, 3), order=pick(3, 2, 0), u=uf(.1, .9), trunc=pick(False, False, True)), n=60, hang=120)
def custom(ctx, fam, d, s, n, order, u, trunc):
    """a user-supplied distribution behaves as the same density integrated directly"""
    from scipy import stats
    D = dict(lognorm=lambda: stats.lognorm(s=s, scale=d), weibull=lambda: stats.weibull_min(c=3 + 3*s, scale=d), gamma=lambda: stats.gamma(a=5 + 5*s, scale=d/8))[fam]()
    top = d*30
    kw = dict(d_min=.4*d, d_max=2.5*d) if trunc else {}
    psd = PSDCustom(D, order=order, d_excessive=top, **kw); a, b = (.4*d, 2.5*d) if trunc else (d*1e-13, top)
    p = 0 if n is None else n - order
    M = lambda x: gauss(lambda v: D.pdf(np.exp(v))*np.exp(v*(1 + p) - log(d)*p), log(a), log(min(max(x, a), b)), 200)
    x = d*exp((u - .5)*2.5); F = M(x)/M(b)
    close(psd.cdf(x, n=n), F, 1e-5, 1e-6, 'cumulative'); close(psd.pdf(x, n=n), D.pdf(x)*(x/d)**p/M(b) if a <= x <= b else 0., 1e-5, 1e-6/d, 'density')
    if not trunc: close(psd.mean_size(4, 3), d*(lambda f: f(4)/f(3))(lambda e: gauss(lambda v: D.pdf(np.exp(v))*np.exp(v*(1 + e - order) - log(d)*(e - order)), log(a), log(b), 200)), 1e-5, what='D[4, 3]')
    ctx.nontrivial(True)
@P.sub(rec(gaps=flist(lf(.05, 1.), 3, 10), ws=flist(uf(.05, 1.), 10, 10), d0=lf(1e-7, 1e-3), classes=pick(True, False, 'zero'), u=uf(.01, .99), ops=flist(pick(-2, -1, 0, 1, .5, -.5, 'mean22', 'mean33', 'mean43'), 0, 4), n=pick(0, 1, 2, None)), n=150)
def interpolated(ctx, gaps, ws, d0, classes, u, ops, n):
    """interpolated data: monotone cumulative through the data, density its derivative, and no dependence on earlier questions"""
    ds = [d0]
    for x in gaps: ds.append(ds[-1]*(1 + x))
    k = len(ds) - 1 if classes is True else len(ds)
    w = ws[:k] + [.3]*(k - len(ws[:k])); w = [x/sum(w) for x in w]
    if classes == 'zero': ds = [0.] + ds; w = [0.] + w
    psd = PSDInterpolated(ds=list(ds), fractions=list(w)); psd2 = PSDInterpolated(ds=list(ds), fractions=list(w))
    cum = np.cumsum(w)
    for i, x in enumerate(ds[1:] if classes is True else ds): close(psd.cdf(x), cum[i], 1e-9, 1e-12, 'cumulative at data point')
    a = ds[0] if classes is True else 0.; b = ds[-1]; x = a + u*(b - a); h = 1e-5*(b - a)
    ensure(all(not (a + h < y < b - h) or True for y in ds), '')
    e1, e2 = psd.cdf(x - h), psd.cdf(x + h); ensure(e2 >= e1 - 1e-12, 'cumulative falls')
    if all(abs(x - y) > 3*h for y in ds): close(psd.pdf(x), (e2 - e1)/(2*h), 1e-3, 1e-4/(b - a), 'density is the derivative')
    close(psd.cdf(psd.dn(u)), u, 1e-6, 1e-9, 'quantile'); ensure(psd.cdf(b*2) == 1. and abs(psd.cdf(b) - 1) < 1e-9, 'cumulative at the top')
    def ask(f, *a, **k):
        try: return f(*a, **k)
        except ArithmeticError as e: return type(e).__name__
    q = lambda z: (ask(z.cdf, x, n=n), ask(z.pdf, x, n=n), ask(z.mean_size, 4, 3))
    for o in ops: ask(psd.mean_size, int(o[4]), int(o[5])) if isinstance(o, str) else ask(psd.cdf, x, n=3 + o)
    ensure(q(psd) == q(psd2), 'answers depend on what was asked before: %r, fresh %r', q(psd), q(psd2)); ctx.nontrivial(True)
@P.sub(rec(d0=lf(1e-7, 1e-3), gaps=flist(lf(.05, 1.), 3, 8), k=pick(4, 5), known=False), n=40)
def interpolated_mean_size(ctx, d0, gaps, k, known):
    """a mean size of interpolated data lies between its smallest and largest sizes (recorded finding: not so for means below the order, and only roughly above)"""
    ds = [d0]
    for x in gaps: ds.append(ds[-1]*(1 + x))
    psd = PSDInterpolated(ds=ds, fractions=[1./(len(ds) - 1)]*(len(ds) - 1))
    if known:
        m = psd.mean_size(3, 2); ensure(ds[0]*(1 - 1e-9) <= m <= ds[-1]*(1 + 1e-9), 'mean size %r of particles between %r and %r', m, ds[0], ds[-1]); return
    N = 40 + 5*len(gaps); ds = [d0*(1 + j/10.) for j in range(N + 1)]; w = [sin(pi*(j + .5)/N)**2 for j in range(N)]; t = sum(w); w = [x/t for x in w]
    psd = PSDInterpolated(ds=ds, fractions=w); mid = [(a + b)/2 for a, b in zip(ds, ds[1:])]
    M = lambda e: sum(x*y**(e - 3) for x, y in zip(w, mid)); close(psd.mean_size(k, k - 1), M(k)/M(k - 1), 5e-3, what='mean size of finely resolved data'); ctx.nontrivial(True)
@P.sub(rec(u=uf(.02, .98), **dist), n=200)
def rebuilt_from_its_parameters(ctx, u, **c):
    """the recorded parameters give the same distribution again, and it does not share them with another"""
    r = mk(c); q = r.psd; par = dict(q.parameters); other = mk({**c, 'd': c['d']*2, 's': c['s']*.7, 'm': c['m']*1.2, 'trunc': 'no'}); ensure(q.parameters == par, 'parameters shared with another distribution')
    want = dict(LN=dict(d_characteristic=r.d, s=r.s), GGS=dict(d_characteristic=r.d, m=r.m), RR=dict(k=r.k, m=r.m))[r.kind] if hasattr(r, 'm') or r.kind == 'LN' else {}
    for k, v in want.items(): ensure(par[k] == v, 'parameter %s' % k)
    for k in ('d_min', 'd_max'): ensure(par[k] is None or par[k] == getattr(q, k), 'parameter %s' % k)
    if c['trunc'] in ('lo', 'both'): ensure(par['d_min'] == r.a, 'recorded d_min')
    if c['trunc'] in ('hi', 'both') and r.kind != 'GGS': ensure(par['d_max'] == r.b, 'recorded d_max')
    n = type(q)(order=r.order, **par); x = size(r, u)
    for p in (None, 0, 3):
        e = 0 if p is None else p - r.order
        if r.exists(e) and r.moment(e) > 1e-7: ensure(n.cdf(x, n=p) == q.cdf(x, n=p) and n.pdf(x, n=p) == q.pdf(x, n=p), 'rebuilt distribution differs')
@P.sub(rec(d=lf(1e-6, 1e-2), s=uf(.2, 1.), gaps=flist(uf(.1, .6), 5, 14), noise=flist(uf(0, .3), 14, 14), kind=pick('lognormal', 'GGS'), guess=pick(None, None, 1.2, .8)), n=15, thorough=300)
def fitted(ctx, d, s, gaps, noise, kind, guess):
    """the fit is no worse than its starting point and reports the sum of differences in the fractions"""
    ds = [d*exp(-2.5*s)]
    for g in gaps: ds.append(ds[-1]*exp(g))
    gen = PSDLognormal(d, s); fr = [max(gen.delta_cdf(a, b), 1e-4)*(1 + e) for a, b, e in zip(ds, ds[1:], noise)]; t = sum(fr); fr = [v/t for v in fr]
    q = ParticleSizeDistribution(ds=list(ds), fractions=list(fr)); cls = dict(lognormal=PSDLognormal, GGS=PSDGatesGaudinSchuhman)[kind]
    def err(x): z = cls(*[float(v) for v in x]); return sum(abs(z.delta_cdf(a, b) - f) for a, b, f in zip(ds, ds[1:], fr))
    x0 = None if guess is None else [d*guess, s*guess if kind == 'lognormal' else 1.5*guess]
    res = q.fit(distribution=kind, **({} if x0 is None else {'x0': x0}), method='Nelder-Mead')
    close(res.fun, err(res.x), 1e-9, 1e-12, 'reported error of the fit')
    start = x0 or [sum(f*(a + b)/2 for f, a, b in zip(fr, ds, ds[1:])), .4 if kind == 'lognormal' else 1.5]
    ensure(res.fun <= err(start) + 1e-9, 'fit worse than its start: %r > %r', res.fun, err(start))
