"""C40: closed-form roots, polynomial algebra."""
from math import *
import itertools, cmath
import numpy as np
import mpmath
from fractions import Fraction as Fr
import fluids.numerics as fn
from fluids.numerics import polynomial_utils as pu
from vf.core import *

P = Prop('C40', rule='Coefficients of all magnitudes, and polynomials of exactly representable roots (real, complex pairs, multiple); non-trivial: no zero leading coefficient and no failed reference.',
         assumptions=['closed forms are accurate for perturbations of the coefficients relative to powers of the largest root; error of the m-th root of that in a cluster of m'])
mp = mpmath.mp.clone(); mp.dps = 50; EPS = 2.3e-16
def coefs_of(roots, a=1):
    c = [Fr(a)]
    for z in roots:
        if isinstance(z, tuple): q = [Fr(1), -2*Fr(z[0]), Fr(z[0])**2 + Fr(z[1])**2]
        else: q = [Fr(1), -Fr(z)]
        c = [sum(c[i]*q[k - i] for i in range(len(c)) if 0 <= k - i < len(q)) for k in range(len(c) + len(q) - 1)]
    return c
def expand(roots):
    out = []
    for z in roots: out += [complex(*z), complex(z[0], -z[1])] if isinstance(z, tuple) else [complex(z)]
    return out
def reference(c):
    c = [mp.mpf(v) for v in c]
    try: return [complex(z) for z in mp.polyroots(c, maxsteps=80, extraprec=150)]
    except mpmath.libmp.NoConvergence: raise SkipCase
def tolerance(c, truth, K):
    n = len(c) - 1; R = max(abs(z) for z in truth); S = sum(abs(v)*R**(n - i) for i, v in enumerate(c)); out = []
    for z in truth:
        b = inf; d = [complex(v) for v in c]
        for m in range(1, n + 1):
            d = [v*(len(d) - 1 - i) for i, v in enumerate(d[:-1])]
            p = 0j
            for v in d: p = p*z + v
            p = abs(p)/factorial(m)
            if p > 0: b = min(b, (n + 1)*(K*EPS*S/p)**(1/m)/(1 if m == 1 else 1))
        out.append(b + 1e-15*abs(z) + 1e-300)
    return out
def compare(got, c, truth, K, what):
    got = [complex(g) for g in got]; ensure(len(got) == len(truth) and all(isfinite(g.real) and isfinite(g.imag) for g in got), '%s: %r' % (what, got))
    tol = tolerance(c, truth, K)
    best = min(max(abs(got[p] - z)/t for p, z, t in zip(perm, truth, tol)) for perm in itertools.permutations(range(len(got))))
    if best > 1: fail('%s%r: got %r, roots are %r (error %.3g of the tolerances %r)' % (what, tuple(c), got, truth, best, ['%.2g' % t for t in tol]))
SG = pick([1., -1.])
CF = uf(-10, 10) | ints(-5, 5).map(float) | rec(m=lf(1e-6, 1e6), s=SG).map(lambda d: d['m']*d['s'])
DY = ints(-16, 16).map(lambda v: v/4)
def real_roots(n): return flist(DY, n, n)
PAIR = rec(r=DY, i=ints(1, 16)).map(lambda d: (d['r'], d['i']/4))
@P.sub(rec(a=CF, b=CF, c=CF, kind=pick(['random', 'random', 'real', 'pair', 'gap']), r=real_roots(2), z=PAIR, s=lf(1e-8, 1e8), k=ints(-30, 30)), n=800, thorough=15000)
def quadratic(ctx, a, b, c, kind, r, z, s, k):
    """Real roots of the quadratic to full relative precision of each, also where they differ by many orders of magnitude."""
    if kind == 'gap': a, b, c = 1., s, (1. if k % 2 else -1.)*s**-1
    if kind == 'real': a, b, c = [float(v)*2.**k for v in coefs_of(r)]
    if kind == 'pair': a, b, c = [float(v)*2.**k for v in coefs_of([z])]
    if a == 0:
        ctx.trivial()
        if b == 0: raises(ZeroDivisionError, fn.roots_quadratic, a, b, c, what='constant'); return
        closes(fn.roots_quadratic(a, b, c), [-c/b]*2, 1e-15, what='linear'); return
    got = fn.roots_quadratic(a, b, c); D = Fr(b)**2 - 4*Fr(a)*Fr(c)
    if kind == 'real': truth = expand(r)
    elif kind == 'pair': truth = expand([z])
    else:
        q = mp.sqrt(mp.mpf(D.numerator)/D.denominator); q = mp.mpc(0, q.imag) if D < 0 else q; truth = [complex((-mp.mpf(b) + q)/(2*mp.mpf(a))), complex((-mp.mpf(b) - q)/(2*mp.mpf(a)))]
    compare(got, [a, b, c], truth, 2, 'roots_quadratic')
    if abs(float(D)) > 1e-3*(b*b + abs(4*a*c)) and D > 0:
        t = [v.real for v in truth]; closes(sorted(got, key=lambda v: v.real), sorted(t), 1e-11, 1e-300, 'roots'); ctx.label('separate')
        if kind not in ('real', 'pair'): closes(got, t, 1e-11, 1e-300, 'order of the roots')
    if D < 0: ensure(isinstance(got[0], complex) and got[0] == got[1].conjugate(), 'complex pair')
def amplification(z):    # a cubic resolvent is computed by difference: loss of precision of its smaller term
    return max(1., float(z))
CUB = dict(a=CF, b=CF, c=CF, d=CF, kind=pick(['random', 'monic', 'three', 'pair', 'scaled', 'small']), r=real_roots(3), z=PAIR, k=ints(-10, 10), e=ints(-30, 30))
def cubic_case(ctx, a, b, c, d, kind, r, z, k, e):
    if kind in ('three', 'pair', 'scaled'):
        roots = r if kind != 'pair' else [r[0], z]
        if kind == 'scaled': roots = [v*2.**k for v in roots]
        return [float(v)*2.**e for v in coefs_of(roots)], expand(roots)
    if kind == 'monic': a = 1.
    if kind == 'small': a = 1.; b, c, d = b/10, c*1e-3, d*1e-5
    if a == 0: return [a, b, c, d], None
    return [a, b, c, d], reference([a, b, c, d])
@P.sub(rec(**CUB), n=900, thorough=15000)
def cubic(ctx, **case):
    c, truth = cubic_case(ctx, **case); a, b, cc, d = c
    if a == 0:
        ctx.trivial()
        if b == 0 and cc == 0: raises(ZeroDivisionError, fn.roots_cubic, *c, what='constant'); return
        if b == 0: closes(fn.roots_cubic(*c), [-d/cc]*3, 1e-15, what='linear'); return
        x = fn.roots_cubic(*c); ensure(len(x) == 3 and x[0] == x[1], 'the repeated value of a quadratic')
        D = Fr(cc)**2 - 4*Fr(b)*Fr(d); q = mp.sqrt(mp.mpf(D.numerator)/D.denominator); compare(x[1:], c[1:], [complex((-mp.mpf(cc) + s*q)/(2*mp.mpf(b))) for s in (1, -1)], 4, 'roots_cubic'); return
    if max(map(abs, truth)) == 0: closes(fn.roots_cubic(*c), [0.]*3, 0, 0, 'zero'); return
    compare(fn.roots_cubic(*c), c, truth, 60, 'roots_cubic'); ctx.label('%d real' % sum(abs(t.imag) < 1e-12*abs(t) for t in truth))
    # the raw forms lose precision, or divide by zero, where the quadratic terms of the depressed cubic vanish
    p = [Fr(v) for v in c]; p = [v/p[0] for v in p]; f = p[2] - p[1]**2/3; g = 2*p[1]**3/27 - p[1]*p[2]/3 + p[3]
    if f == 0: return
    amp = 1 + float(abs(g)**2/4/(abs(f)**3/27))
    if amp < 1e4:
        R = max(map(abs, truth)); 
        compare(fn.roots_cubic_a1(*[float(v) for v in p[1:]]), [1.] + [float(v) for v in p[1:]], truth, 60*amp, 'roots_cubic_a1'); ctx.label('raw forms')
        s = max(abs(v) for v in c)
        if 1e-60 < s < 1e60 and abs(a) > 1e-3*s**1: compare(fn.roots_cubic_a2(*c), c, truth, 60*amp, 'roots_cubic_a2')
@P.sub(rec(a=CF, b=CF, c=CF, d=CF, e=CF, kind=pick(['monic', 'monic', 'ints', 'real', 'pairs', 'mixed', 'even']), r=real_roots(4), z=PAIR, w=PAIR, k=ints(-4, 4)), n=700, thorough=12000)
def quartic(ctx, a, b, c, d, e, kind, r, z, w, k):
    if kind in ('real', 'pairs', 'mixed'):
        roots = {'real': r, 'pairs': [z, w], 'mixed': [r[0], r[1], z]}[kind]; roots = [tuple(q*2.**k for q in v) if isinstance(v, tuple) else v*2.**k for v in roots]
        cs, truth = [float(v) for v in coefs_of(roots)], expand(roots)
    else:
        if kind == 'ints': a, b, c, d, e = [1.] + [float(round(v)) for v in (b, c, d, e)]
        if kind == 'even': a, b, d = 1., 0., 0.
        cs = [1., b, c, d, e]
        if max(map(abs, cs)) > 1e3: raise SkipCase
        truth = reference(cs)
    R = max(map(abs, truth))
    if R == 0: closes(fn.roots_quartic(*cs), [0.]*4, 0, 0, 'zero'); return
    B, C, D, E = [Fr(v) for v in cs[1:]]; d0 = C*C - 3*B*D + 12*E; d1 = 2*C**3 - 9*B*C*D + 27*B*B*E + 27*D*D - 72*C*E
    # the resolvent's smaller term is computed by difference
    amp = 1. if d1 == 0 else 1 + (float(d1)**2/max(4*abs(float(d0))**3, 1e-300) if d0 != 0 else 0.)
    q = B**3/8 - B*C/2 + D; p = C - 3*B*B/8
    amp *= 1 + (0. if q == 0 else (R**3/abs(float(q)))**2)     # the resolvent root vanishes with the square of the odd part
    if amp > 1e6: ctx.trivial(); ctx.label('cancellation'); return
    got = fn.roots_quartic(*cs); compare(got, cs, truth, 100*amp, 'roots_quartic'); ctx.label(kind)
CI = ints(-50, 50).map(float) | uf(-10, 10)
@P.sub(rec(p=flist(CI, 1, 6), q=flist(CI, 1, 6), x=ints(-9, 9)), n=400, thorough=5000)
def algebra(ctx, p, q, x):
    """Ascending coefficients: sum and product of functions."""
    ev = lambda c: sum(Fr(v)*Fr(x)**i for i, v in enumerate(c)); kp, kq = list(p), list(q); s, m = pu.poly_add(p, q), pu.poly_mul(p, q); ensure(p == kp and q == kq, 'inputs modified')
    sc = sum(abs(v)*abs(x)**i for i, v in enumerate(p))*sum(abs(v)*abs(x)**i for i, v in enumerate(q)) + 1
    close(float(ev(s)), float(ev(p) + ev(q)), 1e-13, 1e-14*(sum(abs(v)*abs(x)**i for i, v in enumerate(p)) + sum(abs(v)*abs(x)**i for i, v in enumerate(q))), 'sum'); close(float(ev(m)), float(ev(p)*ev(q)), 1e-13, 1e-14*sc, 'product')
    ensure(len(s) == max(len(p), len(q)) and len(m) == len(p) + len(q) - 1, 'lengths')
@P.sub(rec(x=uf(-10, 10), d=lf(1e-2, 10), u=lf(1e-2, 10), a=CI, b=CI, c=CI, order=pick(list(itertools.permutations(range(3))))), n=300, thorough=5000)
def from_points(ctx, x, d, u, a, b, c, order):
    xs = [(x, x + d, x + d + u)[i] for i in order]; fs = [float(Fr(a)*Fr(v)**2 + Fr(b)*Fr(v) + Fr(c)) for v in xs]; got = fn.quadratic_from_points(*xs, *fs)
    A, X = abs(a) + abs(b) + abs(c) + 1, max(abs(v) for v in xs) + 1; e = 1e-14*A*X**5/(d*u*(d + u))
    close(got[0], a, 0, e, 'a'); close(got[1], b, 0, e*X, 'b'); close(got[2], c, 0, e*X*X, 'c')
    got = pu.quadratic_from_f_ders(x, (a*x + b)*x + c, 2*a*x + b, 2*a); closes(got, [a, b, c], 0, 1e-14*A*X*X*4, 'from derivatives')
@P.sub(rec(r=flist(uf(-10, 10) | DY, 3, 3), z=PAIR, kind=pick(['real', 'real', 'complex'])), n=300, thorough=4000)
def deflation(ctx, r, z, kind):
    if abs(r[0]) < 1e-2: raise SkipCase
    if kind == 'complex':
        c = [float(v) for v in coefs_of([float(Fr(round(r[0]*4), 4)) or 1., z])]; ensure(fn.deflate_cubic_real_roots(*c[1:], float(Fr(round(r[0]*4), 4)) or 1.) == (0., 0.), 'complex remaining roots'); return
    c = coefs_of(r); got = sorted(fn.deflate_cubic_real_roots(*[float(v) for v in c[1:]], r[0])); gap = abs(r[1] - r[2])
    if gap < 1e-4: ctx.trivial(); return
    closes(got, sorted(r[1:]), 0, 1e-13*1000/min(abs(r[0]), 1)/min(gap, 1), 'remaining roots')
@P.sub(rec(roots=flist(uf(-5, 5), 0, 4), pairs=flist(PAIR, 0, 2), lead=SG, dom=opt(flist(uf(-6, 6), 2, 2)), pts=pick([10, 4, 20])), n=400, thorough=5000)
def positivity(ctx, roots, pairs, lead, dom, pts):
    """A polynomial of known simple roots is positive on a domain without roots where it is positive at a point."""
    rs = sorted(roots)
    if any(b - a < 1e-2 for a, b in zip(rs, rs[1:])) or any(abs(v) < 1e-2 for v in rs): raise SkipCase
    c = [float(v) for v in coefs_of(rs + pairs, lead)]; ev = lambda x: sum(Fr(v)*Fr(x)**(len(c) - 1 - i) for i, v in enumerate(c))
    if dom is not None:
        dom = sorted(dom)
        if dom[1] - dom[0] < 1e-2 or any(abs(v - q) < 1e-3 for v in rs for q in dom): raise SkipCase
        inside = [v for v in rs if dom[0] < v < dom[1]]; x = dom[0]
    else: inside = rs; x = -100.
    pos = not inside and ev(x) > 0; neg = not inside and ev(x) < 0; d = None if dom is None else tuple(dom)
    with np.errstate(all='ignore'): ensure(fn.is_poly_positive(c, d, pts) == pos, 'is_poly_positive(%r, %r) is not %r' % (c, d, pos)); ensure(fn.is_poly_negative(c, d, pts) == neg, 'is_poly_negative(%r, %r) is not %r' % (c, d, neg))
    ctx.label('inside' if inside else 'no root')
    if not rs: ctx.trivial()
