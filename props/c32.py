"""C32: demisters and packed towers."""
from math import sqrt, pi
import fluids
from fluids import packed_tower as pt
from vf.core import *
from vf.refs import reffer

P = Prop('C32', rule='Demister pads with S*L 0-12 and 30-... excluded around the published singularities; packings with voidage 0.6-0.98, area 50-500 1/m, C1 1-100, C2 0-7, C3 0.2-7 (the tabulated packings); loads at a generated fraction of the independently found flooding point. Non-trivial: loads between 1% and 99.9% of flooding.')
r = reffer(P, _n=300, _rtol=1e-10)
G0 = 9.80665
def setekleiv(a, b, c, d, e):
    def f(S, voidage, vs, rho, mu, L=1.):
        x = S*L
        t = a - b/(69.6*x - x*x - 779) - c/(d - 4.85*x)
        if abs(69.6*x - x*x - 779) < 1 or abs(d - 4.85*x) < 1: raise SkipCase
        return rho*vs**2/voidage**2*(t + e*(mu*voidage*S**2*L/(rho*vs))**.75)
    return f
K = dict(S=uf(20, 1200), voidage=uf(.5, .999), vs=lf(.01, 20), rho=lf(.05, 100), mu=lf(5e-6, 5e-5), L=opt(lf(.01, .5)))
r('dP_demister_dry_Setekleiv_Svendsen', setekleiv(10.29, 565, 74.9, 160.9, 45.33), _rtol=1e-9, **K)
r('dP_demister_dry_Setekleiv_Svendsen_lit', setekleiv(7.3, 320, 52.4, 161, 27.2), _rtol=1e-9, **K)
r('dP_demister_wet_ElDessouky', lambda vs, voidage, d_wire, L=1.: L*0.002356999643727531*(1 - voidage)**.375798*vs**.81317*d_wire**-1.56114147, vs=lf(.1, 20), voidage=uf(.8, .999), d_wire=lf(5e-5, 1e-3), L=opt(lf(.01, 2)))
r('separation_demister_ElDessouky', lambda vs, voidage, d_wire, d_drop: min(1., 0.858352355761947*d_wire**-.28264*(1 - voidage)**.099625*vs**.106878*d_drop**.383197), vs=lf(.1, 20), voidage=uf(.8, .999), d_wire=lf(5e-5, 1e-2), d_drop=lf(1e-7, 1e-2))
r('voidage_experimental', lambda m, rho, D, H: 1 - m/rho/(pi/4*D*D*H), m=lf(.1, 1e3), rho=lf(500, 9000), D=lf(.1, 3), H=lf(.05, 2), _atol=1e-11)
r('specific_area_mesh', lambda voidage, d: 4*(1 - voidage)/d, voidage=uf(.5, .999), d=lf(5e-5, 1e-2))
def dry(Vg, rhog, mug, voidage, specific_area, C1, C2, C3, H=1.):
    dp = 6*(1 - voidage)/specific_area; Re = Vg*rhog*dp/mug
    return .75*(C1/Re + C2/sqrt(Re) + C3)*(1 - voidage)/voidage**4.65*rhog*H/dp*Vg**2
PK = dict(mug=lf(5e-6, 5e-5), voidage=uf(.4, .98), specific_area=uf(50, 800), C1=uf(.5, 150), C2=uf(0, 7), C3=uf(.2, 7))
r('Stichlmair_dry', dry, Vg=lf(.01, 5), rhog=lf(.05, 50), H=opt(lf(.1, 30)), **dict(PK, C2=uf(-2, 7)), _label=lambda **k: '', _rtol=1e-9, _atol=1e-9)
def robbins(L, G, rhol, rhog, mul, H=1., Fpd=24.):
    L, G, rhol, rhog, mul = L*737.33812, G*737.33812, rhol*.062427961, rhog*.062427961, mul*1e3
    Lf = L*62.4/rhol*(Fpd/20)**.5*mul**.1; Gf = G*(.075/rhog)**.5*(Fpd/20)**.5
    a = 7.4e-8*Gf**2*10**(2.7e-5*Lf)
    return (a + .4*(Lf/20000)**.1*a**4)*817.22083*H
r('Robbins', robbins, L=lf(.1, 40), G=lf(.05, 10), rhol=uf(500, 2000), rhog=lf(.1, 50), mul=lf(1e-4, .05), H=opt(lf(.1, 30)), Fpd=opt(uf(5, 300)))

def pieces(Vg, Vl, rhog, rhol, mug, voidage, specific_area, C1, C2, C3):
    """Residual of the irrigated pressure drop per height, and the pressure drop where the bed is full of liquid."""
    dp = 6*(1 - voidage)/specific_area; Re = Vg*rhog*dp/mug
    f0 = C1/Re + C2/sqrt(Re) + C3; c = (-C1/Re - C2/(2*sqrt(Re)))/f0
    d = dry(Vg, rhog, mug, voidage, specific_area, C1, C2, C3)
    h0 = .555*(Vl**2*specific_area/(G0*voidage**4.65))**(1/3)
    def phi(p):
        hT = h0*(1 + 20*(p/(rhol*G0))**2)
        if hT >= voidage: return 1e300
        return d*((1 - voidage + hT)/(1 - voidage))**((2 + c)/3)*(voidage/(voidage - hT))**4.65
    return d, h0, phi
def wet(**k):
    """Lower root of phi(p) = p by monotone iteration from the dry value, None above flooding (phi is increasing and convex)."""
    d, h0, phi = pieces(**k)
    if h0 >= k['voidage']: return None
    hi = k['rhol']*G0*sqrt((k['voidage']/h0 - 1)/20)
    # minimise phi(p) - p over (0, hi); convex
    a, b = 0., hi
    for _ in range(120):
        m1, m2 = a + (b - a)*.382, a + (b - a)*.618
        if phi(m1) - m1 < phi(m2) - m2: b = m2
        else: a = m1
    pm = (a + b)/2
    if phi(pm) - pm > 0: return None
    lo, up = 0., pm
    for _ in range(200):
        m = (lo + up)/2
        if phi(m) - m > 0: lo = m
        else: up = m
        if m in (lo, up) and lo == up: break
    return (lo + up)/2
def flood(**k):
    lo, hi = 1e-9, 1e-9
    while wet(Vg=hi, **k) is not None:
        lo = hi; hi *= 4
        if hi > 1e4: return None
    if lo == hi: return None
    for _ in range(45):
        m = sqrt(lo*hi)
        if wet(Vg=m, **k) is None: hi = m
        else: lo = m
    return lo
LD = dict(Vl=lf(1e-4, .03), rhog=lf(.3, 10), rhol=uf(600, 1500), mug=lf(5e-6, 5e-5), voidage=uf(.6, .98), specific_area=uf(50, 500), C1=uf(1, 100), C2=uf(0, 7), C3=uf(.2, 7))
@P.sub(rec(frac=inear(lf(.01, .999), [.9, .99, .5, .1, .999], 8), H=opt(lf(.1, 30)), **LD), n=150, thorough=3000)
def irrigated(ctx, frac, H, **k):
    Vf = flood(**k)
    if Vf is None: ctx.trivial(); ctx.label('no flooding point'); return
    Vg = Vf*frac; w = wet(Vg=Vg, **k)
    Hh = 1. if H is None else H
    got = pt.Stichlmair_wet(Vg=Vg, **dict(k, H=Hh))
    d, h0, phi = pieces(Vg=Vg, **k)
    p = got/Hh
    ensure(p > 0 and phi(p) < 1e299, 'irrigated pressure drop %r' % got)
    close(phi(p), p, 1e-8*(1 + (phi(p*(1 + 1e-6)) - phi(p))/(1e-6*p)), 0, 'residual of the irrigated pressure drop at %r of flooding' % frac)
    close(p, w, 1e-6 if frac < .95 else 1e-3, 0, 'irrigated pressure drop at %r of flooding' % frac)
    ensure(got >= d*Hh*(1 - 1e-12), 'irrigation lowers the pressure drop')
    ctx.label('near flooding' if frac > .9 else 'below flooding'); ctx.nontrivial()
@P.sub(rec(H=opt(lf(.1, 30)), **LD), n=150, thorough=3000)
def flooding(ctx, H, **k):
    if pieces(Vg=1., **k)[1] > .5*k['voidage']: ctx.trivial(); ctx.label('over half full of liquid'); return
    Vf = flood(**k)
    if Vf is None: ctx.trivial(); ctx.label('no flooding point'); return
    got = pt.Stichlmair_flood(**dict(k, **({} if H is None else {'H': H})))
    close(got, Vf, 1e-6, 0, 'flooding velocity'); ctx.nontrivial(); ctx.label('ok')
@P.sub(rec(eps=lf(1e-9, 1e-4), Vg=lf(.01, 3), **{q: v for q, v in LD.items() if q != 'Vl'}), n=100)
def liquid_vanishes(ctx, eps, Vg, rhol, **k):
    d = pt.Stichlmair_dry(Vg=Vg, **k)
    if d > .02*rhol*G0: ctx.trivial(); return
    w = pt.Stichlmair_wet(Vg=Vg, Vl=eps**1.5*.01, rhol=rhol, **k)
    close(w, d, 1e3*eps, 0, 'pressure drop with a trace of liquid')
