"""C25: discrete particle size data: conversions, totals, mean sizes; size grids; sieve tables."""
from math import *
import numpy as np
from fluids import particle_size_distribution as psdm
from fluids.particle_size_distribution import *
from vf.core import *
from vf.tables import load
P = Prop('C25', rule='2..14 bins or points with ratios 1.02..2.2, quantities with some empty bins, given as fractions, counts, flows (any total) or cumulative values, lists or arrays, order 0..3; grids of 2..40 points over up to four decades; every sieve. Non-trivial: at least two non-empty bins.',
         assumptions=['bin means are the documented ones: the average of d^p over the bin with uniform number density'])
SNAP = load('sieves'); GX, GW = np.polynomial.legendre.leggauss(30)
def edges(d0, ratios, n):
    out = [d0]
    for i in range(n - 1): out.append(out[-1]*(1 + ratios[i % len(ratios)]))
    return out
raw = dict(d0=lf(1e-7, 1e-2), ratios=flist(lf(.02, 1.2), 1, 5), ws=flist(inear(uf(.01, 1.), [0.], 5), 2, 14), classes=pick(True, False), scale=inear(lf(1e-3, 1e6), [1.], 3))
def build(d0, ratios, ws, classes, scale):
    if sum(ws) == 0: ws = [1.] + ws[1:]
    return edges(d0, ratios, len(ws) + (1 if classes else 0)), [w/sum(ws) for w in ws], scale
def bp(ds, classes, i, p):
    """mean of d^p over the bin (uniform in d), or the point value"""
    if not classes: return ds[i]**p
    a, b = ds[i], ds[i + 1]
    y = (a + b)/2 + (b - a)/2*GX
    return float(np.sum(GW*y**p)/2)
def norm(v): t = sum(v); return [x/t for x in v]
@P.sub(rec(order=pick(0, 1, 2, 3), form=pick('fractions', 'counts', 'cdf', 'array', 'cdf array'), p=pick(range(0, 7)), q=pick(range(0, 7)), fr=pick(0, 0, .5), **raw), n=700)
def discrete(ctx, order, form, p, q, fr, **c):
    ds, w, scale = build(**c); cl = c['classes']; N = len(w)
    give = {'fractions': list(w), 'counts': [x*scale for x in w], 'cdf': list(np.cumsum(w)), 'array': np.array(w)*scale, 'cdf array': np.cumsum(w)}[form]
    d_in = np.array(ds) if 'array' in form else list(ds); keep = list(d_in), list(give)
    psd = ParticleSizeDistribution(ds=d_in, fractions=give, order=order, cdf='cdf' in form)
    ensure((list(d_in), list(give)) == keep, 'input data were modified')
    B = {k: [bp(ds, cl, i, k) for i in range(N)] for k in range(-1, 8)}
    V = norm([x*B[3 - order][i] for i, x in enumerate(w)])                      # volume basis
    want = dict(fractions=V, area_fractions=norm([v/B[1][i] for i, v in enumerate(V)]), length_fractions=norm([v/B[2][i] for i, v in enumerate(V)]), number_fractions=norm([v/B[3][i] for i, v in enumerate(V)]))
    for k, x in want.items():
        closes(getattr(psd, k), x, 1e-9, 1e-13, what=k); close(sum(getattr(psd, k)), 1., 1e-9, what='sum of ' + k)
    for k, x in dict(fraction_cdf='fractions', volume_cdf='fractions', area_cdf='area_fractions', length_cdf='length_fractions', number_cdf='number_fractions').items(): closes(getattr(psd, k), list(np.cumsum(want[x])), 1e-9, 1e-12, what=k)
    closes(want[{0: 'number_fractions', 1: 'length_fractions', 2: 'area_fractions', 3: 'fractions'}[order]], w, 1e-9, 1e-13, what='the given quantities come back')
    ensure(psd.N == N and psd.size_classes == cl, 'N %r, size_classes %r', psd.N, psd.size_classes)
    closes(psd.Dis, B[1], 1e-9, what='Dis'); i = len(ds) % N; close(psd.di_power(i, power=p + fr), bp(ds, cl, i, p + fr), 1e-9, what='di_power')
    # means
    n = want['number_fractions']; S = lambda e: sum(x*bp(ds, cl, i, e) for i, x in enumerate(n)); P1 = p + fr
    m = (S(P1)/S(q))**(1/(P1 - q)) if P1 != q else exp(sum(x*log(B[1][i])*B[p][i] for i, x in enumerate(n))/S(p))
    close(psd.mean_size(P1, q), m, 1e-8, what='D[%r,%r]' % (P1, q)); close(psd.mean_size_ISO(P1 - q, q), m, 1e-8, what='ISO mean')
    if P1 != q: close(psd.mean_size(q, P1), m, 1e-8, what='D[p,q] = D[q,p]')
    ensure(ds[0]*(1 - 1e-9) <= m <= ds[-1]*(1 + 1e-9), 'mean outside of the data')
    close(psd.vssa, sum(v*6/B[1][i] for i, v in enumerate(V)), 1e-9, what='specific surface')
    ctx.nontrivial(sum(x > 0 for x in w) > 1); ctx.label('%s order%d %s' % (form, order, 'classes' if cl else 'points'))
@P.sub(rec(order=pick(0, 1, 2, 3), order2=pick(0, 1, 2, 3), k=lf(1e-3, 1e3), p=ints(0, 5), q=ints(0, 5), **raw), n=300)
def same_particles(ctx, order, order2, k, p, q, **c):
    """the same particles described in two bases, or in other units, are the same distribution"""
    ds, w, scale = build(**c); A = ParticleSizeDistribution(ds=ds, fractions=[x*scale for x in w], order=order)
    F = lambda s, o: [s.number_fractions, s.length_fractions, s.area_fractions, s.fractions][o]
    B = ParticleSizeDistribution(ds=ds, fractions=F(A, order2), order=order2); C = ParticleSizeDistribution(ds=[k*x for x in ds], fractions=w, order=order)
    for o in range(4): closes(F(B, o), F(A, o), 1e-8, 1e-13, what='order %d rebuilt from order %d' % (o, order2)); closes(F(C, o), F(A, o), 1e-8, 1e-13, what='order %d in other units' % o)
    close(B.mean_size(p, q), A.mean_size(p, q), 1e-8, what='mean'); close(C.mean_size(p, q), k*A.mean_size(p, q), 1e-8, what='mean in other units'); close(C.vssa, A.vssa/k, 1e-8, what='vssa in other units'); ctx.nontrivial(order != order2)
@P.sub(rec(u=uf(.01, .99), fr=uf(.01, .99), **raw), n=200)
def cumulative(ctx, u, fr, **c):
    """the interpolated cumulative passes through the data, rises, and quantiles invert it"""
    ds, w, scale = build(**c); w = [max(x, .01) for x in w]; w = norm(w); psd = ParticleSizeDistribution(ds=ds, fractions=w); cum = list(np.cumsum(w)); pts = ds[1:] if c['classes'] else ds
    for d, f in zip(pts, cum): close(psd.cdf(d), f, 1e-9, 1e-12, what='cumulative at a data point'); 
    ensure(psd.cdf(ds[-1]*3) == 1., 'cumulative above the data')
    if c['classes']: close(psd.cdf(ds[0]), 0., 0, 1e-12, what='cumulative at the lowest edge')
    close(psd.cdf(ds[0]*u), 0. if c['classes'] else psd.cdf(ds[0]*u), 0, 1e-12, what='cumulative below the data'); ensure(psd.pdf(ds[-1]*(1 + u)) == 0. and (not c['classes'] or psd.pdf(ds[0]*u) == 0.), 'density outside of the data')
    d = psd.dn(fr); close(psd.cdf(d), fr, 1e-7, 1e-9, what='quantile'); ensure(0 <= d <= ds[-1], 'quantile %r', d)
    g = sorted(ds[0]*(ds[-1]/ds[0])**(j/12.*u) for j in range(13)); F = [psd.cdf(x) for x in g]; ensure(all(b >= a - 1e-12 for a, b in zip(F, F[1:])), 'cumulative falls: %r', F)
    j = len(w)//2
    if j: close(psd.delta_cdf(pts[j - 1], pts[j]), w[j], 1e-9, 1e-12, what='delta_cdf of a bin')
    fd = psd.fractions_discrete(pts); closes(fd, w, 1e-8, 1e-11, what='fractions on the own grid'); closes(psd.cdf_discrete(pts), cum, 1e-9, 1e-12, what='cdf_discrete'); ctx.nontrivial(True)
# --- grids
@P.sub(rec(a=lf(1e-7, 1e-2), f=lf(1.1, 1e4), pts=ints(2, 40), R=pick('R5', 'R10', 'R20', 'r40', 'R2.5'), miss=pick(0, 1, 2)), n=250)
def spacing(ctx, a, f, pts, R, miss):
    b = a*f
    g = psd_spacing(a, b, pts=pts); ensure(len(g) == pts, '%d points', len(g)); closes(g, [a*f**(i/(pts - 1)) for i in range(pts)], 1e-9, what='logarithmic grid'); ensure(psd_spacing(a, b, pts=pts, method='logarithmic') == g, 'default grid is logarithmic')
    closes(psd_spacing(a, b, pts=pts, method='linear'), [a + (b - a)*i/(pts - 1) for i in range(pts)], 1e-9, what='linear grid')
    r = 10**(1/float(R[1:])); pts = min(pts, 30)
    closes(psd_spacing(d_min=a, pts=pts, method=R), [a*r**i for i in range(pts)], 1e-9, what='Renard grid upward'); closes(psd_spacing(d_max=b, pts=pts, method=R), [b*r**(i - pts + 1) for i in range(pts)], 1e-9, what='Renard grid downward')
    raises(ValueError, psd_spacing, a, b, pts=pts, method=R, what='Renard grid with both ends'); raises(ValueError, psd_spacing, pts=pts, method=R, what='Renard grid without end'); raises(ValueError, psd_spacing, a, b, pts=pts, method='cubic', what='unknown method')
    kw = [dict(d_min=a), dict(d_max=b), {}][miss]; raises(ValueError, psd_spacing, pts=pts, what='logarithmic grid without both ends', **kw); raises(ValueError, psd_spacing, pts=pts, method='ISO 3310-1', what='sieve grid without both ends', **kw); ctx.nontrivial(True)
SER = {'ISO 3310-1': lambda: ISO_3310_1_sieves.values(), 'ISO 3310-1 R20': lambda: ISO_3310_1_R20, 'ISO 3310-1 R20/3': lambda: ISO_3310_1_R20_3, 'ISO 3310-1 R40/3': lambda: ISO_3310_1_R40_3, 'ISO 3310-1 R10': lambda: ISO_3310_1_R10, 'ASTM E11': lambda: ASTM_E11_sieves.values()}
@P.sub(rec(name=pick(list(SER)), a=inear(lf(1e-5, .13), SNAP['openings']), b=inear(lf(1e-5, .13), SNAP['openings']), pts=ints(2, 30)), n=250)
def sieve_grids(ctx, name, a, b, pts):
    a, b = sorted((a, b)); want = sorted(o for o in SNAP['series'][name] if a <= o <= b)
    closes(psd_spacing(a, b, pts=pts, method=name), want, 1e-12, what='sieves within %r..%r' % (a, b)); ensure(sorted(s.opening for s in SER[name]()) == sorted(SNAP['series'][name]), 'openings of the series')
    ctx.nontrivial(len(want) > 1); ctx.label(name)
@P.sub(rec(table=pick('ASTM_E11_sieves', 'ISO_3310_1_sieves'), i=ints(0, 98), known=False), n=400)
def sieves(ctx, table, i, known):
    """sieve entries: opening is the designation in mm; recorded data; limits around the nominal wire"""
    t = getattr(psdm, table); keys = sorted(SNAP[table]); k = keys[i % len(keys)]; s = t[k]; ensure(s.designation == k, 'key %r holds %r', k, s.designation); close(s.opening, float(k)*1e-3, 1e-12, what='opening of ' + k)
    for a, v in SNAP[table][k].items():
        if isinstance(v, (int, float)): close(getattr(s, a), v, 1e-9, what='%s of %s' % (a, k))
        else: ensure(getattr(s, a) == v, '%s of %s: %r, recorded %r', a, k, getattr(s, a), v)
    ensure(len(t) == len(SNAP[table]), 'number of sieves')
    w = eval(repr(s), {'Sieve': psdm.Sieve})
    for a in SNAP[table][k]:
        x, y = getattr(s, a), getattr(w, a)
        if isinstance(x, float): close(y, x, 1e-5, what='%s of the sieve rebuilt from its text' % a)
        else: ensure(x == y, '%s of the sieve rebuilt from its text: %r, was %r', a, y, x)
    if known:
        if s.opening_inch is not None: close(s.opening_inch*.0254, s.opening, .05, what='inches and metres of ' + k)
        if s.max_opening is not None: ensure(s.opening < s.max_opening < 2*s.opening, 'largest opening %r of %r', s.max_opening, s.opening)
        if s.d_wire is not None: ensure(s.d_wire_min <= s.d_wire <= s.d_wire_max and .04 < s.d_wire/s.opening < 2.5, 'wire %r..%r..%r, opening %r', s.d_wire_min, s.d_wire, s.d_wire_max, s.opening)
    ctx.nontrivial(True)
@P.sub(rec(name=pick(list(SER)[1:5])), n=20)
def sieve_series(ctx, name):
    """the documented order: largest first; steps of a Renard series"""
    o = [s.opening for s in SER[name]()]; ensure(o == sorted(o, reverse=True) and len(set(o)) == len(o), 'not in falling order')
    st_ = {'ISO 3310-1 R20': 10**.05, 'ISO 3310-1 R20/3': 10**.15, 'ISO 3310-1 R40/3': 10**.075, 'ISO 3310-1 R10': 10**.1}[name]
    if name[-3:] == 'R10': o = o[1:]        # 36 um is a supplementary size
    for a, b in zip(o, o[1:]): close(a/b, st_, .07, what='step of ' + name)
    ctx.nontrivial(True)
