"""C33: the 1976 standard atmosphere."""
from math import sqrt, exp, cos, radians, log
import fluids
from fluids.atmosphere import ATMOSPHERE_1976, airmass
from vf.core import *

P = Prop('C33', rule='Geometric altitude -600 m to 90 km with every layer boundary and its neighbourhood, temperature offsets -100..+100 K. Non-trivial: every altitude above 1 m, an elevation change or angle.')
R0, G0, M0, R = 6356766., 9.80665, 28.9644, 8314.32
HB = [0., 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 84852.]
LR = [-6.5e-3, 0., 1e-3, 2.8e-3, 0., -2.8e-3, -2e-3, 0.]
TB, PB = [288.15], [101325.]
def _step(T, Pp, lr, dh): return Pp*exp(-G0*M0*dh/(R*T)) if lr == 0 else Pp*(T/(T + lr*dh))**(G0*M0/(R*lr))
for i in range(7):
    dh = HB[i + 1] - HB[i]
    PB.append(_step(TB[i], PB[i], LR[i], dh)); TB.append(TB[i] + LR[i]*dh)
def ref(Z):
    H = R0*Z/(R0 + Z)
    i = max([j for j in range(8) if HB[j] <= H] or [0])
    return H, TB[i] + LR[i]*(H - HB[i]), _step(TB[i], PB[i], LR[i], H - HB[i])
def Zof(H): return R0*H/(R0 - H)
EDGES = [Zof(h) for h in HB] + [0., 86000., -610.]
Z = inear(uf(-610, 90000), EDGES, 4)
DT = inear(uf(-100, 100), [0.], 3)
@P.sub(rec(Z=Z, dT=opt(DT)), n=1500)
def profile(ctx, Z, dT):
    a = ATMOSPHERE_1976(Z) if dT is None else ATMOSPHERE_1976(Z, dT)
    d = dT or 0.
    H, T, Pp = ref(Z)
    T += d
    close(a.H, H, 1e-12, 1e-9, 'geopotential height'); close(a.T, T, 1e-11, 0, 'temperature'); close(a.P, Pp, 1e-9, 0, 'pressure')
    close(a.rho, Pp*M0/(R*T), 1e-9, 0, 'density'); close(a.v_sonic, sqrt(1.4*R*T/M0), 1e-10, 0, 'sonic velocity')
    close(a.mu, 1.458e-6*T**1.5/(T + 110.4), 1e-10, 0, 'viscosity'); close(a.k, 2.64638e-3*T**1.5/(T + 245.4*10**(-12/T)), 1e-10, 0, 'thermal conductivity')
    close(a.g, G0*(R0/(R0 + Z))**2, 1e-12, 0, 'gravity')
    ctx.label('layer %d' % max([j for j in range(8) if HB[j] <= H] or [-1]))
    if abs(Z) < 1: ctx.trivial()
@P.sub(rec(T=uf(100, 400), P_=lf(.1, 2e5), Z=Z), n=200)
def static_formulas(ctx, T, P_, Z):
    A = ATMOSPHERE_1976
    close(A.density(T, P_), P_*M0/(R*T), 1e-10, 0, 'density'); close(A.sonic_velocity(T), sqrt(1.4*R*T/M0), 1e-10, 0, 'sonic velocity')
    close(A.viscosity(T), 1.458e-6*T**1.5/(T + 110.4), 1e-11, 0, 'viscosity'); close(A.thermal_conductivity(T), 2.64638e-3*T**1.5/(T + 245.4*10**(-12/T)), 1e-10, 0, 'conductivity')
    close(A.gravity(Z), G0*(R0/(R0 + Z))**2, 1e-12, 0, 'gravity')
X8, W8 = [.1834346424956498, .5255324099163290, .7966664774136267, .9602898564975363], [.3626837833783620, .3137066458778873, .2223810344533745, .1012285362903763]
def gl(f, a, b, n):
    s = 0.; h = (b - a)/n/2
    for i in range(n):
        m = a + (2*i + 1)*h
        for x, w in zip(X8, W8): s += w*(f(m + h*x) + f(m - h*x))
    return s*h
def pieces(f, a, b):
    sg = 1
    if a > b: a, b, sg = b, a, -1
    pts = [a] + [e for e in sorted(EDGES) if a < e < b] + [b]
    return sg*sum(gl(f, p, q, max(2, int((q - p)/1500))) for p, q in zip(pts, pts[1:]))
@P.sub(rec(a=Z, b=Z), n=150)
def hydrostatic(ctx, a, b):
    """Integrating the reported density and gravity between two altitudes gives the reported pressure difference."""
    f = lambda z: (lambda s: s.rho*s.g)(ATMOSPHERE_1976(z))
    pa, pb = ATMOSPHERE_1976(a).P, ATMOSPHERE_1976(b).P
    close(pieces(f, a, b), pa - pb, 1e-8, 1e-8*min(pa, pb) + 1e-9*abs(pa - pb), 'hydrostatic balance between %r and %r m' % (a, b))
    if abs(a - b) < 1: ctx.trivial()
@P.sub(rec(P1=inear(lf(.45, 1.08e5), [101325., PB[1], PB[2]], 6), dH=inear(uf(-5000, 5000), [0., 1., 100.], 6), T1=uf(200, 330)), n=250, thorough=3000)
def pressure_integral(ctx, P1, dH, T1):
    got = ATMOSPHERE_1976.pressure_integral(T1, P1, dH)
    lo, hi = -2000., 90000.
    for _ in range(200):
        m = (lo + hi)/2
        if ref(m)[2] > P1: lo = m
        else: hi = m
    z = (lo + hi)/2; dT = T1 - ref(z)[1]
    f = lambda q: (lambda t: t[2]*M0/(R*(t[1] + dT))*G0*(R0/(R0 + q))**2)(ref(q))
    if min(ref(q)[1] + dT for q in (z, z + dH/2, z + dH)) < 80: ctx.trivial(); return
    kink = any(min(z, z + dH) < e < max(z, z + dH) for e in EDGES)   # the adaptive quadrature can miss a kink
    close(got, pieces(f, z, z + dH), 1e-4 if kink else 1e-6, 3e-8 + 1e-9*P1, 'pressure change over %r m from %r Pa and %r K' % (dH, P1, T1))
    ensure(got*dH >= 0, 'sign of the pressure change')
    ctx.label('up' if dH > 0 else 'down')
@P.sub(rec(angle=inear(uf(3, 90), [90., 30., 45.], 6), Hs=lf(4e3, 1.2e4), rho0=uf(.5, 2), Hm=opt(uf(2e4, 1.2e5)), Rp=opt(uf(3e6, 7e6)), RI=opt(uf(1.0001, 1.0005)), std=pick(False, True)), n=120, thorough=2000)
def slant_path(ctx, angle, Hs, rho0, Hm, Rp, RI, std):
    func = (lambda z: ATMOSPHERE_1976(z).rho) if std else (lambda z: rho0*exp(-z/Hs))
    kw = {k: v for k, v in dict(H_max=Hm, R_planet=Rp, RI=RI).items() if v is not None}
    got = airmass(func, angle, **kw)
    Hm, Rp, RI = Hm or 86400., Rp or 6.371229e6, RI or 1.000276
    d = RI - 1; r0 = func(0.)
    g = lambda z: func(z)/sqrt(1 - (1 + 2*d*(1 - func(z)/r0))*(cos(radians(angle))/(1 + z/Rp))**2)
    pts = [0., 200., 1000., 3000., 8000.] + [e for e in sorted(EDGES) if 8000 < e < Hm] + [Hm]
    want = sum(gl(g, p, q, max(4, int((q - p)/1000))) for p, q in zip(pts, pts[1:]))
    close(got, want, 1e-4 if std else 3e-7, 1e-6, 'air mass at %r degrees' % angle)
    vertical = sum(gl(func, p, q, max(4, int((q - p)/1000))) for p, q in zip(pts, pts[1:]))
    ensure(got >= vertical*(1 - 1e-6), 'a slanted path holds less air than the vertical one')
    ctx.label('standard' if std else 'exponential')
