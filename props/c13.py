"""C13: entrance, exit, contraction and diffuser loss coefficients."""
from math import sqrt, sin, cos, tan, atan, pi, log, radians, degrees
import fluids
from fluids import fittings
from vf.core import *
from vf.refs import reffer
from vf.tables import *
from .c09 import colebrook as _cb
def colebrook(Re, eD):
    if Re < 500: raise SkipCase      # the turbulent equation is not used (nor well posed) there
    return _cb(Re, eD)

P = Prop('C13', rule='Diameters log-uniform, diameter ratios, lengths, radii and angles uniform over the documented ranges and beyond the clamps; tabulated nodes, '
         'branch limits and their neighbours drawn explicitly; every method. Non-trivial: every distinct input.',
         assumptions=['digitised curves (Miller, Idelchik, Harris, Blevins, Crane tables) are the published data as copied from the pinned tree into props/data/fittings.json'])
r = reffer(P, _n=150, _rtol=1e-9)
T = load('fittings')
D = lf(1e-3, 3)
def meth(d, extra=(None,)): return pick(*[m for m in d], *extra, 'BADMETHOD')

# ---- entrances ----
SHARP = dict(Swamee=.5, Blevins=.5, Crane=.5, Idelchik=.5, Rennels=.57, Miller=poly(T.entrance_rounded_Miller_coeffs, -1.))
r('entrance_sharp', lambda method='Rennels': ValueError if method == 'BADMETHOD' else SHARP[method or 'Rennels'], method=meth(SHARP), _n=30)
def e_dist(Di, t=None, l=None, method='Rennels'):
    m = method or 'Rennels'
    if m == 'BADMETHOD': return ValueError
    if m == 'Crane': return .78
    if t is None: return ValueError
    q = t/Di
    if m == 'Rennels': q = min(q, .05); return 1.12 - 22*q + 216*q**2 + 80*q**3
    if m == 'Miller': return poly(T.entrance_distance_Miller_coeffs, (min(q, .3) - .15)/.15)
    if m == 'Harris': return sp1(min(q, .289145), T.entrance_distance_Harris_tck)
    return max(0., bilin(min((Di if l is None else l)/Di, 10.), min(q, 1.), T.entrance_distance_Idelchik_l_Di, T.entrance_distance_Idelchik_t_Di, T.entrance_distance_Idelchik_dat))
@P.sub(rec(Di=D, q=inear(lf(1e-4, 3), [.05, .289145, .3, 1.] + T.entrance_distance_Idelchik_t_Di[1:]), lq=opt(inear(lf(1e-4, 20), T.entrance_distance_Idelchik_l_Di[1:]), 4), no_t=pick(False, False, False, True),
           method=pick('Rennels', 'Miller', 'Idelchik', 'Idelchik', 'Harris', 'Crane', 'BADMETHOD', None)), n=500)
def entrance_distance(ctx, Di, q, lq, no_t, method):
    kw = dict(Di=Di, method=method)
    if not no_t: kw['t'] = q*Di
    if lq is not None: kw['l'] = lq*Di
    w = e_dist(**kw); ctx.label(str(method))
    if w is ValueError: raises(ValueError, fittings.entrance_distance, **kw); return
    got = fittings.entrance_distance(**kw)
    close(got, w, 1e-9, 1e-12, 'entrance_distance %s' % method)
    ensure(got >= 0, 'negative entrance loss %r', got)
@P.sub(rec(Di=D, q=inear(lf(1e-4, 2), [.3])), n=150)
def entrance_distance_45_Miller(ctx, Di, q):
    Di0 = Di*(1 + 2*q)
    close(fittings.entrance_distance_45_Miller(Di, Di0), poly(T.entrance_distance_45_Miller_coeffs, (min(.5*(Di0 - Di)/Di, .3) - .15)/.15), 1e-8, 1e-10)
def e_ang(angle, method='Idelchik'): return ValueError if method == 'BADMETHOD' else .57 + .3*cos(radians(angle)) + .2*cos(radians(angle))**2
r('entrance_angled', e_ang, angle=uf(0, 180), method=pick('Idelchik', None, 'BADMETHOD'))
def e_round(q, method):
    m = method or 'Rennels'
    if m == 'BADMETHOD': return ValueError
    if m == 'Rennels':
        if q > 1: return .03
        lb = 1 + .622*(1 - .3*sqrt(q) - .7*q)**4
        return .0696*(1 - .569*q)*lb**2 + (lb - 1)**2
    if m == 'Swamee': return .5/(1 + 36*q**1.2)
    if m == 'Crane': return lin(q, T.entrance_rounded_ratios_Crane, T.entrance_rounded_Ks_Crane)
    if m == 'Miller': return poly(T.entrance_rounded_Miller_coeffs, (min(q, .3) - .15)/.15)
    if m == 'Harris': return 0. if q > .16 else sp1(q, T.entrance_rounded_Harris_tck)
    return .03 if q > .2 else sp1(q, T.entrance_rounded_Idelchik_tck)
@P.sub(rec(Di=D, q=inear(uf(0, 1.3, [0., 1e-9]), [.3, .16, .2, 1., .02, .04, .06, .1, .15]), method=pick('Rennels', 'Swamee', 'Crane', 'Miller', 'Harris', 'Idelchik', None, 'BADMETHOD')), n=500)
def entrance_rounded(ctx, Di, q, method):
    rc = q*Di; w = e_round(rc/Di, method); ctx.label(str(method))
    if w is ValueError: raises(ValueError, fittings.entrance_rounded, Di, rc, method); return
    got = fittings.entrance_rounded(Di=Di, rc=rc, method=method)
    close(got, w, 1e-9, 1e-11, 'entrance_rounded %s' % method)
    ensure(got > -2e-3 if method in ('Harris', 'Miller') else got >= 0, 'negative entrance loss %r', got)
    if q == 0 and method in ('Swamee', 'Crane', 'Idelchik', 'Miller'): close(got, fittings.entrance_sharp(method), 1e-9, 0, 'sharp limit')
def e_bev(Di, l, angle, method='Rennels'):
    m = method or 'Rennels'
    if m == 'BADMETHOD': return ValueError
    if m == 'Idelchik': return bilin(2*angle, l/Di, T.entrance_beveled_Idelchik_angles, T.entrance_beveled_Idelchik_l_Di, T.entrance_beveled_Idelchik_dat)
    q = l/Di; cb = (1 - angle/90)*(angle/90)**(1/(1 + q)); lb = 1 + .622*(1 - 1.5*cb*q**((1 - q**.25)/2))
    return .0696*(1 - cb*q)*lb**2 + (lb - 1)**2
@P.sub(rec(Di=D, q=inear(lf(1e-4, 1.), [.6, .025, .05, .1]), angle=inear(uf(0, 90, [0., 90.]), [5., 10., 15., 45.]), method=pick('Rennels', 'Idelchik', None, 'BADMETHOD')), n=300)
def entrance_beveled(ctx, Di, q, angle, method):
    l = q*Di; w = e_bev(Di, l, angle, method)
    if w is ValueError: raises(ValueError, fittings.entrance_beveled, Di, l, angle, method); return
    close(fittings.entrance_beveled(Di=Di, l=l, angle=angle, method=method), w, 1e-9, 1e-11, 'entrance_beveled %s' % method)
def e_bevo(Di, Do, l, angle):
    q = l/Do; cb = (1 - angle/90)*(angle/90)**(1/(1 + q)); lb = 1 + .622*(1 - cb*q**((1 - q**.25)/2))
    return .0696*(1 - cb*q)*lb**2 + (lb - (Do/Di)**2)**2
@P.sub(rec(Di=D, b=uf(.05, 1.), q=lf(1e-4, 2.), angle=uf(0, 90)), n=200)
def entrance_beveled_orifice(ctx, Di, b, q, angle):
    close(fittings.entrance_beveled_orifice(Di=Di, Do=Di*b, l=q*Di*b, angle=angle), e_bevo(Di, Di*b, q*Di*b, angle), 1e-9, 1e-11)
@P.sub(rec(D=D), n=3)
def exit_normal(ctx, D): close(fittings.exit_normal(), 1., 0, 0, 'exit'); close(float(fluids.fittings.exit_normal()), 1.0, 0)

# ---- contractions (K on the downstream, small, diameter) ----
BETA = uf(.02, 1., [1., .999999])
def lam(b, k): return 1 + .622*k*(1 - .215*b**2 - .785*b**5)
def fdof(Re, e): return colebrook(Re, e)
def c_sharp(Di1, Di2, fd=None, Re=None, roughness=0., method='Rennels'):
    b = Di2/Di1
    if method == 'BADMETHOD': return ValueError
    if method == 'Rennels': l = lam(b, 1); return .0696*(1 - b**5)*l*l + (l - 1)**2
    if method == 'Crane': return .5*(1 - b*b)
    if Re is None: return ValueError
    if Re <= 2500: K = (1.2 + 160/Re)*(b**-4 - 1)
    else: K = (.6 + .48*(colebrook(Re, roughness/Di1) if fd is None else fd))*b**-2*(b**-2 - 1)
    return K*b**4
RE = lf(10, 1e8)
@P.sub(rec(Di1=D, b=BETA, fd=opt(uf(.005, .1), 3), Re=opt(inear(RE, [2500., 4000.]), 5), e=opt(uf(0, .05), 2), method=pick('Rennels', 'Hooper', 'Hooper', 'Crane', 'BADMETHOD')), n=400)
def contraction_sharp(ctx, Di1, b, fd, Re, e, method):
    kw = dict(Di1=Di1, Di2=Di1*b, method=method)
    if fd is not None: kw['fd'] = fd
    if Re is not None: kw['Re'] = Re
    if e is not None: kw['roughness'] = e*Di1
    w = c_sharp(**kw); ctx.label(method)
    if w is ValueError: raises(ValueError, fittings.contraction_sharp, **kw); return
    got = fittings.contraction_sharp(**kw)
    close(got, w, 1e-9, 1e-13, 'contraction_sharp %s' % method); ensure(got >= -1e-15, 'negative loss')
    if method == 'Rennels': close(fittings.contraction_sharp(Di1, Di1*b), w, 1e-9, 1e-13, 'default method')
def c_round(Di1, Di2, rc, method='Rennels'):
    b = Di2/Di1; q = rc/Di2; m = method or 'Rennels'
    if m == 'BADMETHOD': return ValueError
    if m == 'Rennels': l = lam(b, (1 - .3*sqrt(q) - .7*q)**4); return .0696*(1 - .569*q)*(1 - sqrt(q)*b)*(1 - b**5)*l*l + (l - 1)**2
    if m == 'Idelchik': return lin(q, T.contraction_round_Idelchik_ratios, T.contraction_round_Idelchik_factors)*(1 - b*b)
    return max(0., sp2(b*b, min(q, .1), T.tck_contraction_abrupt_Miller))
@P.sub(rec(Di1=D, b=BETA, q=inear(uf(0, 1., [0.]), [.1, .2, .01, .08, .12, .16]), method=pick('Rennels', 'Miller', 'Idelchik', None, 'BADMETHOD')), n=400)
def contraction_round(ctx, Di1, b, q, method):
    Di2 = Di1*b; rc = q*Di2; w = c_round(Di1, Di2, rc, method); ctx.label(str(method))
    if w is ValueError: raises(ValueError, fittings.contraction_round, Di1, Di2, rc, method); return
    got = fittings.contraction_round(Di1=Di1, Di2=Di2, rc=rc, method=method)
    close(got, w, 1e-9, 1e-10, 'contraction_round %s' % method); ensure(got >= 0, 'negative loss')
    if method == 'Miller': close(fittings.contraction_round_Miller(Di1=Di1, Di2=Di2, rc=rc), w, 1e-9, 1e-10)
    if q == 0 and method in (None, 'Rennels'): close(got, fittings.contraction_sharp(Di1, Di2), 1e-10, 1e-14, 'zero rounding is the sharp contraction')
def c_con(Di1, Di2, a, l, fd=None, Re=None, roughness=0., method='Rennels'):
    """a in radians and l both known"""
    b = Di2/Di1; s = sin(a/2)
    if method == 'BADMETHOD': return ValueError
    if method == 'Rennels':
        if fd is None:
            if Re is None: return ValueError
            fd = colebrook(Re, roughness/Di2)
        L = lam(b, (a/pi)**.8)
        return fd*(1 - b**4)/(8*s) + .0696*s*(1 - b**5)*L*L + (L - 1)**2
    if method == 'Crane': return .8*s*(1 - b*b) if a < pi/4 else .5*sqrt(s)*(1 - b*b)
    if method == 'Swamee': return .315*a**(1/3)
    if method == 'Idelchik':
        return bilin(degrees(a), l/Di2, T.entrance_beveled_Idelchik_angles, T.entrance_beveled_Idelchik_l_Di, T.entrance_beveled_Idelchik_dat)*(1 - b*b) + \
            bilin(degrees(a), b*b, T.contraction_conical_angles_Idelchik, T.contraction_conical_A_ratios_Idelchik, T.contraction_conical_friction_Idelchik)
    if method == 'Blevins': return bilin(l/Di2, b**-2, T.contraction_conical_l_ratios_Blevins, T.contraction_conical_A_ratios_Blevins, T.contraction_conical_Ks_Blevins)
    if method == 'Miller': return max(0., min(.5, sp2(log(min(10., max(.1, 2*l/Di2))), log(min(4., max(1.1, b**-2))), T.contraction_conical_Miller_tck)))
    if Re is None: return ValueError
    K = c_sharp(Di1, Di2, fd, Re, roughness, 'Hooper')
    return K*(sqrt(s) if a > pi/4 else 1.6*s)
def geom(Di1, Di2, by, a, lq):
    """-> kwargs, angle(rad), length"""
    if by == 'angle': return dict(angle=a), radians(a), abs(Di1 - Di2)/2/tan(radians(a)/2)
    if by == 'l0': return dict(l=0.), pi, 0.
    l = lq*min(Di1, Di2)
    return dict(l=l), 2*atan(abs(Di1 - Di2)/2/l), l
CM = ['Rennels', 'Idelchik', 'Crane', 'Swamee', 'Blevins', 'Miller', 'Hooper']
GEO = dict(by=pick('angle', 'l'), a=inear(uf(.5, 180., [180.]), [45., 20., 60., 2., 3., 40., 100.]), lq=lf(1e-3, 50))
OPT = dict(fd=opt(uf(.005, .1), 2), Re=opt(inear(RE, [2500., 4000.]), 5), e=opt(uf(0, .05), 2))
def okw(kw, fd, Re, e, Dref):
    if fd is not None: kw['fd'] = fd
    if Re is not None: kw['Re'] = Re
    if e is not None: kw['roughness'] = e*Dref
    return kw
def near(x, *ks): return any(abs(x/k - 1) < 1e-9 for k in ks)
@P.sub(rec(Di1=D, b=uf(.02, .9999), by=pick('angle', 'l', 'l', 'l0'), a=GEO['a'], lq=GEO['lq'], method=pick(*CM, 'BADMETHOD'), **OPT), n=900)
def contraction_conical(ctx, Di1, b, by, a, lq, fd, Re, e, method):
    Di2 = b*Di1
    g, ar, l = geom(Di1, Di2, by, a, lq)
    if near(ar, pi/4) and degrees(ar) != 45: raise SkipCase
    if by == 'angle' and a == 45.: raise SkipCase      # exactly on the switch the float radians decide
    o = okw({}, fd, Re, e, Di2)
    w = c_con(Di1, Di2, ar, l, method=method, **o); ctx.label(method, by)
    if w is ValueError: raises(ValueError, fittings.contraction_conical, Di1=Di1, Di2=Di2, method=method, **g, **o); return
    got = fittings.contraction_conical(Di1=Di1, Di2=Di2, method=method, **g, **o)
    close(got, w, 1e-8, 1e-11, 'contraction_conical %s' % method); ensure(got >= 0, 'negative loss %r', got)
    if method == 'Rennels': close(fittings.contraction_conical(Di1=Di1, Di2=Di2, **g, **o), w, 1e-8, 1e-11, 'default method')
    if method == 'Crane': close(fittings.contraction_conical_Crane(Di1=Di1, Di2=Di2, **g), w, 1e-9, 1e-13, 'contraction_conical_Crane')
@P.sub(rec(Di1=D, b=uf(.02, .99)), n=20)
def geometry_required(ctx, Di1, b):
    for f in (fittings.contraction_conical, fittings.contraction_conical_Crane): raises(ValueError, f, Di1=Di1, Di2=b*Di1)
    raises(ValueError, fittings.diffuser_conical, Di1=b*Di1, Di2=Di1, fd=.01)
def c_bev(Di1, Di2, l, angle):
    b = Di2/Di1; a = radians(angle); cb = l/Di2*2*b*tan(a/2)/(1 - b); L = lam(b, 1 + cb*((a/pi)**.8 - 1))
    return .0696*(1 + cb*(sin(a/2) - 1))*(1 - b**5)*L*L + (L - 1)**2
@P.sub(rec(Di1=D, b=uf(.05, .99), c=uf(0, 1.), angle=uf(1, 179)), n=200)
def contraction_beveled(ctx, Di1, b, c, angle):
    Di2 = Di1*b; l = c*Di2*(1 - b)/(2*b*tan(radians(angle)/2))
    close(fittings.contraction_beveled(Di1=Di1, Di2=Di2, l=l, angle=angle), c_bev(Di1, Di2, l, angle), 1e-9, 1e-12)
    close(fittings.contraction_beveled(Di1=Di1, Di2=Di2, l=0., angle=angle), fittings.contraction_sharp(Di1, Di2), 1e-10, 1e-14, 'no bevel is the sharp contraction')

# ---- diffusers (K on the upstream, small, diameter) ----
def d_sharp(Di1, Di2, Re=None, fd=None, roughness=0., method='Rennels'):
    b = Di1/Di2
    if method == 'BADMETHOD': return ValueError
    if method == 'Rennels': return (1 - b*b)**2
    if Re is None: return ValueError
    if Re < 4000: return 2*(1 - b**4)
    return (1 + .8*(colebrook(Re, roughness/Di1) if fd is None else fd))*(1 - b*b)**2
@P.sub(rec(Di2=D, b=BETA, method=pick('Rennels', 'Hooper', 'Hooper', 'BADMETHOD'), **OPT), n=300)
def diffuser_sharp(ctx, Di2, b, method, fd, Re, e):
    kw = okw(dict(Di1=Di2*b, Di2=Di2, method=method), fd, Re, e, Di2*b)
    w = d_sharp(**kw)
    if w is ValueError: raises(ValueError, fittings.diffuser_sharp, **kw); return
    close(fittings.diffuser_sharp(**kw), w, 1e-9, 1e-13, 'diffuser_sharp %s' % method)
def d_con(Di1, Di2, a, l, fd=None, Re=None, roughness=0., method='Rennels'):
    b = Di1/Di2; m = method or 'Rennels'; s = sin(a/2); A = (1 - b*b)**2; deg = degrees(a)
    if m == 'BADMETHOD': return ValueError
    if m == 'Rennels':
        if fd is None:
            if Re is None: return ValueError
            fd = colebrook(Re, roughness/Di2)
        fr = fd*(1 - b**4)/(8*s)
        if deg <= 20: return 8.3*tan(a/2)**1.75*A + fr
        if deg <= 60:
            k = 1.366*sqrt(sin(2*pi*(deg - 15)/180)) - .17
            if b < .5: k -= 3.28*(.0625 - b**4)*sqrt((deg - 20)/40)
            return k*A + fr
        t = sqrt((deg - 60)/120)
        return (1.205 - 3.28*(.0625 - b**4) - 12.8*b**6*t if b < .5 else 1.205 - .2*t)*A
    if m == 'Crane': return (2.6*s if deg < 45 else 1.)*A
    if m == 'Miller': return max(0., sp2(log(min(20., max(.1, 2*l/Di1))), log(min(4., max(1.1, b**-2))), T.tck_diffuser_conical_Miller))
    if m == 'Idelchik':
        return bilin(deg, b*b, T.contraction_conical_angles_Idelchik, T.contraction_conical_A_ratios_Idelchik, T.contraction_conical_friction_Idelchik) + \
            sp2(min(.6, b*b), max(3., deg), T.diffuser_conical_Idelchik_tck)
    if m == 'Swamee':
        rr = 1/b; return (.25/a**3*(1 + .6/rr**1.67*(pi - a)/a)**(.533*rr - 2.6))**-.5
    if Re is None: return ValueError
    K = d_sharp(Di1, Di2, Re, fd, roughness, 'Hooper')
    return K if a > pi/4 else K*2.6*s
DM = ['Rennels', 'Crane', 'Miller', 'Swamee', 'Idelchik', 'Hooper']
@P.sub(rec(Di2=D, b=uf(.02, .9999, [.5]), method=pick(*DM, None, 'BADMETHOD'), **GEO, **OPT), n=1000)
def diffuser_conical(ctx, Di2, b, by, a, lq, fd, Re, e, method):
    Di1 = b*Di2
    g, ar, l = geom(Di1, Di2, by, a, lq); deg = degrees(ar)
    if near(deg, 45, 20, 60) or (near(b, .5) and Di1/Di2 != .5): raise SkipCase
    if method == 'Swamee' and b < .2: raise SkipCase       # exponent overflows; outside any tabulated use
    o = okw({}, fd, Re, e, Di2)
    w = d_con(Di1, Di2, ar, l, method=method, **o); ctx.label(str(method), by)
    if w is ValueError: raises(ValueError, fittings.diffuser_conical, Di1=Di1, Di2=Di2, method=method, **g, **o); return
    got = fittings.diffuser_conical(Di1=Di1, Di2=Di2, method=method, **g, **o)
    close(got, w, 1e-8, 1e-11, 'diffuser_conical %s' % method)
    if method != 'Idelchik': ensure(got >= -1e-15, 'negative loss %r', got)
@P.sub(rec(Di1=D, rs=flist(uf(1.01, 1.6), 2, 5), ls=flist(lf(.05, 20), 5, 5), fd=uf(.005, .1), method=pick('Rennels', 'Crane', 'Miller', 'Idelchik')), n=200)
def diffuser_conical_staged(ctx, Di1, rs, ls, fd, method):
    Ds = [Di1]
    for q in rs: Ds.append(Ds[-1]*q)
    L = [q*Di1 for q in ls[:len(rs)]]
    w = sum(fittings.diffuser_conical(Di1=Ds[i], Di2=Ds[i + 1], l=L[i], fd=fd, method=method) for i in range(len(rs)))
    close(fittings.diffuser_conical_staged(Di1=Di1, Di2=Ds[-1], DEs=Ds[1:-1], ls=L, fd=fd, method=method), w, 1e-12, 1e-14, 'staged diffuser is the sum of its stages')
@P.sub(rec(Di2=D, b=uf(.02, .9999, [.5]), **GEO), n=300)
def diffuser_conical_Crane(ctx, Di2, b, by, a, lq):
    """the function of this method alone, by angle and by length"""
    Di1 = b*Di2
    g, ar, l = geom(Di1, Di2, by, a, lq)
    if near(degrees(ar), 45): raise SkipCase
    close(fittings.diffuser_conical_Crane(Di1=Di1, Di2=Di2, **g), d_con(Di1, Di2, ar, l, method='Crane', Re=None, fd=None, roughness=0.), 1e-9, 1e-12, 'diffuser_conical_Crane'); ctx.label(by)
    raises(ValueError, fittings.diffuser_conical_Crane, Di1=Di1, Di2=Di2)
def d_curved(Di1, Di2, l):
    b = Di1/Di2; q = l/Di1
    return (1.01 - .624*q + .3*q**2 - .074*q**3 + .007*q**4)*(1.43 - 1.3*b*b)*(1 - b*b)**2
@P.sub(rec(Di2=D, b=uf(.1, 1.), q=uf(.01, 5)), n=150)
def diffuser_curved(ctx, Di2, b, q):
    close(fittings.diffuser_curved(Di1=b*Di2, Di2=Di2, l=q*b*Di2), d_curved(b*Di2, Di2, q*b*Di2), 1e-9, 1e-14)
@P.sub(rec(Di2=D, b=uf(.1, .999), q=uf(.05, 5), fd1=uf(.005, .1), fd2=opt(uf(.005, .1), 2)), n=150)
def diffuser_pipe_reducer(ctx, Di2, b, q, fd1, fd2):
    Di1 = b*Di2; l = q*Di2; f2 = fd1 if fd2 is None else fd2
    w = fd1*.2*l/Di1 + fd1*(1 - b)/8/sin(atan((Di2 - Di1)/(1.2*l))) + f2*.2*l/Di2*b**4
    kw = dict(Di1=Di1, Di2=Di2, l=l, fd1=fd1)
    if fd2 is not None: kw['fd2'] = fd2
    close(fittings.diffuser_pipe_reducer(**kw), w, 1e-10)

@P.sub(rec(D_=D, a=uf(1., 170), Re=lf(1e4, 1e7), fd=uf(.005, .05)), n=60)
def no_area_change(ctx, D_, a, Re, fd):
    """with equal diameters these published forms give no loss"""
    for m in ('Rennels', 'Hooper', 'Crane'):
        close(fittings.contraction_sharp(D_, D_, Re=Re, fd=fd, method=m), 0, 0, 1e-12, 'contraction_sharp ' + m)
    for m in ('Rennels', 'Hooper'): close(fittings.diffuser_sharp(D_, D_, Re=Re, fd=fd, method=m), 0, 0, 1e-12, 'diffuser_sharp ' + m)
    for m in ('Rennels', 'Crane', 'Hooper'):
        close(fittings.contraction_conical(D_, D_, angle=a, Re=Re, fd=fd, method=m), 0, 0, 1e-12, 'contraction_conical ' + m)
        close(fittings.diffuser_conical(D_, D_, angle=a, Re=Re, fd=fd, method=m), 0, 0, 1e-12, 'diffuser_conical ' + m)
    close(fittings.contraction_round(D_, D_, rc=.1*D_), 0, 0, 1e-12, 'contraction_round')
