"""C21: partially filled vessel heads: volumes and wetted areas against independent integration of the documented solids."""
from math import sqrt, pi, isinf, sin, asin
import fluids
from fluids import geometry as g
from vf.core import *
from vf.solids import *

P = Prop('C21', rule='Diameter 0.05 to 20 m, head depth 0.4% to 400% of the radius (to 100% for spherical heads on horizontal vessels), dish factor 0.51 to 2, knuckle 0.005 to 0.45, fill fraction 0..1 with 0, 1, 1/2, knuckle/dish junctions and heights outside the vessel drawn explicitly. Non-trivial: a fill height strictly inside the head.',
         assumptions=['reference volumes and areas are tanh-sinh integrals (accurate to about 1e-13, checked against closed forms in DESIGN.md) of the solids drawn in the documentation'])
D_ = inear(lf(.05, 20.), [1., 2., 72.])
U = inear(uf(0., 1.), [0., 1., .5, 1e-6, 1 - 1e-6, .4999, .5001, 1e-12])
OUT = inear(U, [-.3, 1.3, 1. + 1e-15], 12)
AR = inear(lf(.004, 4.), [1., .999999, 1.000001, .5, .02, .0199, .0201], 4)      # depth / radius
F_, K_ = inear(uf(.51, 2.), [1., .9, .5001, .8]), inear(uf(.005, .45), [.06, .1, .49])
QA = 4e-8     # the quadratures stop at an absolute error of 1.5e-8 (m^2, m^3)
def chk(ctx, got, want, scale, u, rtol=1e-9, what='', quad=0):
    finite(got, what); close(got, want, rtol, 1e-10*scale + quad*QA, what); ctx.nontrivial(1e-9 < u < 1 - 1e-9)
REV = dict(conical=conical, ellipsoidal=ellipsoidal, spherical=spherical)
SHAPES = list(REV) + ['guppy', 'torispherical']
def solid(shape, D, c): return torispherical(D, c['f'], c['k']) if shape == 'torispherical' else None if shape == 'guppy' else REV[shape](D, c['ar']*D/2)
def horiz(shape, D, c, h, L=0., head=True):
    if shape == 'torispherical': return g.V_horiz_torispherical(D, L, c['f'], c['k'], h, headonly=head)
    return getattr(g, 'V_horiz_' + shape)(D, L, c['ar']*D/2, h, headonly=head)
def fields(**k): return rec(D=D_, u=OUT, ar=AR, f=F_, k=K_, **k).map(lambda c: dict(c, k=min(c['k'], c['f'] - .02)))
def refV(shape, D, c, h): return V_guppy(D, c['ar']*D/2, h) if shape == 'guppy' else V_horiz(solid(shape, D, c), D, h)
def ok(shape, ar):
    if shape == 'spherical' and ar > 1: raise SkipCase     # the horizontal spherical head is defined up to a hemisphere
def dep(shape, D, c): return c['ar']*D/2 if shape != 'torispherical' else depth(solid(shape, D, c))
def ill(shape, ar): return 1 if shape != 'spherical' else 1e5 if abs(ar - 1) < 1e-3 else 100. if ar > .1 else 1/ar**2
def mk_h(shape):
    @P.sub(fields(part=pick('random', 'random', 'junction')), n=500 if shape in ('torispherical', 'spherical') else 250, name='V_horiz_' + shape)
    def f_(ctx, D, u, ar, f, k, part):
        ok(shape, ar); c = dict(ar=ar, f=f, k=k)
        if part == 'junction' and shape == 'torispherical':
            sa = (1 - 2*k)/(2*(f - k)); h = (k*D*(1 - sa) if u < .5 else D - k*D*(1 - sa))*(1 + (u - .5)*1e-3); u = h/D
        else: h = u*D
        v = horiz(shape, D, c, h)
        # the volume of a dish is a difference of terms of the size of the dish sphere: allow their rounding
        chk(ctx, v, refV(shape, D, c, h), D**3*ill(shape, ar), u, 2e-7 if shape in ('torispherical', 'spherical') else 1e-10, 'volume of one horizontal %s head' % shape, shape == 'torispherical' or shape == 'spherical' and ar < .021)
        if 0 <= u <= 1:
            L = D*(1 + u)
            seg = float(seg_area(np.array([D/2]), h - D/2)[0])
            close(horiz(shape, D, c, h, L, False), 2*v + L*seg, 1e-9, 1e-10*D**3, 'two heads and the cylinder')
            if shape != 'guppy':   # top/bottom symmetry
                close(v + horiz(shape, D, c, D - h), horiz(shape, D, c, D), 1e-7, 1e-10*D**3*ill(shape, ar) + QA*(shape in ('torispherical', 'spherical')), 'V(h) + V(D-h) = V(D)')
    @P.sub(fields(part=pick('random', 'random', 'junction')), n=150 if shape in ('torispherical', 'guppy', 'ellipsoidal') else 200, name='SA_partial_horiz_' + shape, hang=60)
    def s_(ctx, D, u, ar, f, k, part):
        ok(shape, ar); c = dict(ar=ar, f=f, k=k); a = ar*D/2
        if part == 'junction' and shape == 'torispherical':     # level at the edge of the knuckle, exactly as computed or near it
            h = k*D*(1.0 - sin(asin((1.0 - 2.0*k)/(2.*(f - k)))))
            if u > .5: h *= 1 + (u - .5)*1e-3
            u = h/D
        else: h = u*D
        if shape == 'guppy' and ar == 1: raise SkipCase      # see guppy_as_deep_as_radius
        want = S_guppy(D, a, h) if shape == 'guppy' else S_horiz(solid(shape, D, c), D, h)
        got = g.SA_partial_horiz_torispherical_head(D, f, k, h) if shape == 'torispherical' else getattr(g, 'SA_partial_horiz_%s_head' % shape)(D, a, h)
        chk(ctx, got, want, D**2*300, u, 1e-3 if shape == 'torispherical' and abs(u - .5) < .0011 else 1e-6, 'wetted area of one horizontal %s head' % shape, shape != 'conical')
for s_ in SHAPES: mk_h(s_)
VT = [s for s in SHAPES if s != 'guppy']
def mk_v(shape):
    HU = inear(uf(0., 2.), [0., 1., 1 - 1e-9, 1 + 1e-9, .5, -.1, 1e-8])
    @P.sub(rec(D=D_, u=HU, ar=AR, f=F_, k=K_).map(lambda c: dict(c, k=min(c['k'], c['f'] - .02))), n=250, name='vertical_' + shape)
    def f_(ctx, D, u, ar, f, k):
        c = dict(ar=ar, f=f, k=k); S = solid(shape, D, c); d = depth(S); a = ar*D/2; h = u*d
        if shape == 'torispherical':
            j = k*D*sqrt(1 - ((1 - 2*k)/(2*(f - k)))**2)    # knuckle height
            V, VC, SA = g.V_vertical_torispherical(D, f, k, h), g.V_vertical_torispherical_concave(D, f, k, h), g.SA_partial_vertical_torispherical_head(D, f, k, h)
            close(g.a_torispherical(D, f, k), d, 1e-10, what='head depth')
        else:
            V, VC, SA = getattr(g, 'V_vertical_' + shape)(D, a, h), getattr(g, 'V_vertical_%s_concave' % shape)(D, -a, h), getattr(g, 'SA_partial_vertical_%s_head' % shape)(D, a, h)
        sc = D*D*d
        chk(ctx, V, V_vert(S, D, h), sc*10, u if u < 1 else u/2, 1e-8, 'volume of a vertical %s head' % shape)
        chk(ctx, VC, V_concave(S, D, h), sc*100, u if u < 1 else u/2, 1e-7, 'volume around a concave %s head' % shape)
        near1 = shape == 'ellipsoidal' and 0 < abs(ar - 1) < 1e-5     # the closed form is 0/0 at a = R
        chk(ctx, SA, S_vert(S, D, min(h, d)), D*D, u if u < 1 else u/2, 1e-4 if near1 else 1e-7, 'wetted area of a vertical %s head' % shape)
        if 0 < u <= 1:   # the convex head and the space around it fill the cylinder
            Vtop = V_vert(S, D, d) - V_vert(S, D, d - h)
            close(VC + Vtop, pi/4*D*D*h, 1e-7, 1e-8*sc, 'concave and convex volumes complement')
    @P.sub(rec(D=D_, ar=AR, f=F_, k=K_).map(lambda c: dict(c, k=min(c['k'], c['f'] - .02))), n=120, name='SA_full_' + shape)
    def t_(ctx, D, ar, f, k):
        S = solid(shape, D, dict(ar=ar, f=f, k=k)); a = ar*D/2
        want = S_vert(S, D, depth(S))
        ctx.nontrivial(True)
        if shape == 'spherical': got = g.SA_tank(D, 0., 'spherical', None, sideA_a=a)[1]
        elif shape == 'torispherical': got = g.SA_torispheroidal(D, f, k)
        else: got = getattr(g, 'SA_%s_head' % shape)(D, a)
        close(got, want, 1e-5 if shape == 'ellipsoidal' and abs(ar - 1) < 1e-3 else 1e-8, what='area of the whole %s head' % shape)
for s_ in VT: mk_v(s_)
@P.sub(rec(D=D_, ar=AR, known=False), n=60)
def SA_full_guppy(ctx, D, ar, known):
    a = ar*D/2; got = g.SA_guppy_head(D, a); want = S_guppy(D, a, D)
    if not known and abs(got/(pi/4*D*sqrt(a*a + D*D) + pi/2*D*a) - 1) < 1e-9: return     # the published approximation (recorded finding)
    close(got, want, 1e-6, what='area of the whole guppy head')
@P.sub(rec(D=D_, u=U, known=False), n=60)
def guppy_as_deep_as_radius(ctx, D, u, known):
    h = u*D; got = g.SA_partial_horiz_guppy_head(D, D/2, h)
    if not known and abs(got - pi*D/2*h) <= 1e-9*D*D: return     # the hemisphere's area is returned when a == R (recorded finding)
    close(got, S_guppy(D, D/2, h), 1e-6, QA, what='wetted area of a guppy head with depth equal to the radius')
@P.sub(rec(shape=pick('conical', 'ellipsoidal', 'guppy', 'spherical'), D=D_, u=uf(0., 1.), ar=AR), n=150)
def concave_horizontal(ctx, shape, D, u, ar):
    """a head of negative depth on a horizontal vessel takes away what the convex one adds"""
    ok(shape, ar); a, h = ar*D/2, u*D; f = getattr(g, 'V_horiz_' + shape)
    close(f(D, 0., -a, h, headonly=True), -f(D, 0., a, h, headonly=True), 1e-9, 1e-12*D**3, 'negative depth')
@P.sub(rec(shape=pick(SHAPES), D=D_, u=uf(.001, .99), du=uf(1e-3, .3), ar=AR, f=F_, k=K_, vert=pick(False, True)), n=300)
def increasing(ctx, shape, D, u, du, ar, f, k, vert):
    """volume and wetted area never fall as the level rises, from nothing to the value of the full head"""
    ok(shape, ar); k = min(k, f - .02); c = dict(ar=ar, f=f, k=k); a = ar*D/2; u2 = min(u + du, 1.)
    if vert and shape != 'guppy':
        d = dep(shape, D, c); args = (D, f, k) if shape == 'torispherical' else (D, a)
        V = lambda x: getattr(g, 'V_vertical_' + shape)(*args, x*d); S = lambda x: getattr(g, 'SA_partial_vertical_%s_head' % shape)(*args, x*d)
    else:
        V = lambda x: horiz(shape, D, c, x*D); args = (D, f, k) if shape == 'torispherical' else (D, a)
        S = lambda x: getattr(g, 'SA_partial_horiz_%s_head' % shape)(*args, x*D)
    for q, n in ((V, 'volume'), (S, 'area')):
        z, a1, a2, full = q(0.), q(u), q(u2), q(1.)
        ensure(abs(z) <= 1e-7*full, '%s of an empty %s head is %r', n, shape, z)
        ensure(0 < a1 <= a2*(1 + 1e-6) and a2 <= full*(1 + 1e-6), '%s of %s head not increasing: %r at %r, %r at %r, %r full', n, shape, a1, u, a2, u2, full)
        if shape == 'guppy' and ar == 1: continue
        ensure(abs(q(1.5) - full) <= 1e-9*full or (n == 'volume' and vert and shape != 'guppy'), '%s of %s head above the top: %r, full %r', n, shape, q(1.5), full)
# --- sphere and circle
@P.sub(rec(D=D_, u=OUT), n=200)
def sphere(ctx, D, u):
    h = min(max(u, 0.), 1.)*D
    chk(ctx, g.V_partial_sphere(D, u*D), pi*h*h*(3*D/2 - h)/3, D**3, u, 1e-11, 'spherical cap volume')
    chk(ctx, g.SA_partial_sphere(D, u*D), pi*D*h, D**2, u, 1e-11, 'spherical cap area')
@P.sub(rec(D=D_, L=lf(.1, 50.), u=OUT), n=250)
def circle(ctx, D, L, u):
    h = min(max(u, 0.), 1.)*D; R = D/2; y = h - R
    A = float(seg_area(np.array([R]), y)[0]); S = float(seg_arc(np.array([R]), y)[0])
    chk(ctx, g.A_partial_circle(D, u*D), A, D*D, u, 1e-9, 'circular segment area')
    chk(ctx, g.SA_partial_cylindrical_body(L, D, u*D), S*L, D*L*100, u, 1e-7, 'wetted cylinder')
    if 1e-4 < u < .9999: close(g.circle_segment_h_from_A(A, D), h, 1e-7, what='height from segment area')
TINY = {**{'V_horiz_' + x: lambda h, c, x=x: getattr(g, 'V_horiz_' + x)(c['D'], c['D'], c['ar']*c['D']/2, h, headonly=c['head']) for x in REV},
        'V_horiz_guppy': lambda h, c: g.V_horiz_guppy(c['D'], c['D'], c['ar']*c['D']/2, h, headonly=c['head']), 'V_horiz_torispherical': lambda h, c: g.V_horiz_torispherical(c['D'], c['D'], c['f'], c['k'], h, headonly=c['head']),
        **{'SA_partial_horiz_%s_head' % x: lambda h, c, x=x: getattr(g, 'SA_partial_horiz_%s_head' % x)(c['D'], c['ar']*c['D']/2, h) for x in list(REV) + ['guppy']}, 'SA_partial_horiz_torispherical_head': lambda h, c: g.SA_partial_horiz_torispherical_head(c['D'], c['f'], c['k'], h),
        'A_partial_circle': lambda h, c: g.A_partial_circle(c['D'], h), 'SA_partial_cylindrical_body': lambda h, c: g.SA_partial_cylindrical_body(c['D'], c['D'], h), 'V_partial_sphere': lambda h, c: g.V_partial_sphere(c['D'], h), 'SA_partial_sphere': lambda h, c: g.SA_partial_sphere(c['D'], h)}
@P.sub(rec(fn=pick(sorted(TINY)), D=D_, ar=AR, f=F_, k=K_, e=uf(-25., -12.5), full=pick(False, True), head=pick(True, False)).map(lambda c: dict(c, k=min(c['k'], c['f'] - .02))), n=800, thorough=20000)
def nearly_empty_or_full(ctx, fn, full, e, **c):
    """a film of liquid, or of air, of any thickness: almost the empty or the full vessel"""
    if 'spherical' in fn and 'tori' not in fn: c['ar'] = min(c['ar'], 1.)
    F, D = TINY[fn], c['D']; x = 10.**e*D; h = D - x if full else x; end = D if full else 0.; ctx.label(fn)
    a, b = finite(F(h, c), fn), F(end, c); big = abs(F(D, c)) + D**(3 if fn[0] == 'V' else 2)
    ensure(abs(a - b) <= big*(3e-6 if fn[0] == 'S' else 1e-7 if fn != 'V_horiz_spherical' else .05 if .999 < c['ar'] < 1 else 1e-7/c['ar']**2), '%s: %r within %r of a level where it is %r', fn, a, x, b)
