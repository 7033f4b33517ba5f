"""C30: drag on spheres and settling: documented correlations, force balance, equation of motion."""
from math import *
import numpy as np
from fluids import drag
from fluids.drag import *
from vf.core import *
P = Prop('C30', rule='Re 1e-8..1e6 with every branch limit probed from both sides; particles 1e-7..0.03 m, density 1.02..12 times the fluid in liquids and 500..12000 kg/m3 in gases; viscosity 1e-5..1. Non-trivial: inside the published range of the correlation; for settling, a terminal Reynolds number above 0.01 or a time of the order of the relaxation time.')
l10 = log10
def clift(R):
    w = l10(R)
    return (24/R + 3/16 if R < .01 else 24/R*(1 + .1315*R**(.82 - .05*w)) if R < 20 else 24/R*(1 + .1935*R**.6305) if R < 260 else 10**(1.6435 - 1.1242*w + .1558*w*w) if R < 1500
            else 10**(-2.4571 + 2.5558*w - .9295*w*w + .1049*w**3) if R < 12000 else 10**(-1.9181 + .6370*w - .0636*w*w) if R < 44000 else 10**(-4.3390 + 1.5809*w - .1546*w*w) if R < 338000 else 29.78 - 5.3*w if R < 4e5 else .19*w - .49)
def morsi(R):
    for hi, c in ((.1, (24, 0, 0)), (1, (22.73, .0903, 3.69)), (10, (29.1667, -3.8889, 1.2220)), (100, (46.5, -116.67, .6167)), (1000, (98.33, -2778, .3644)), (5000, (148.62, -4.75e4, .3570)), (1e4, (-490.5460, 57.87e4, .46)), (inf, (-1662.5, 5.4167e6, .5191))):
        if R < hi: return c[0]/R + c[1]/R**2 + c[2]
def almedeij(R):
    p1 = (24/R)**10 + (21*R**-.67)**10 + (4*R**-.33)**10 + .4**10; p2 = 1/((.148*R**.11)**-10 + .5**-10); p3 = (1.57e8*R**-1.625)**10; p4 = 1/((6e-17*R**2.63)**-10 + .2**-10) if R > 1. else 0.
    return (1/(1/(p1 + p2) + 1/p3) + p4)**.1
def barati_high(R):
    R = min(R, 1e6)
    return (8e-6*((R/6530)**2 + tanh(R) - 8*log(R)/log(10)) - .4119*exp(-2.08e43/(R + R*R)**4) - 2.1344*exp(-((log(R*R + 10.7563)/log(10))**2 + 9.9867)/R) + .1357*exp(-((R/1620)**2 + 10370)/R)
            - 8.5e-3*(2*log(tanh(tanh(R)))/log(10) - 2825.7162)/R + 2.4795)
REF = {
 'Stokes': (lambda R: 24/R, 0, .3), 'Barati': (lambda R: 5.4856e9*tanh(4.3774e-9/R) + .0709*tanh(700.6574/R) + .3894*tanh(74.1539/R) - .1198*tanh(7429.0843/R) + 1.7174*tanh(9.9851/(R + 2.3384)) + .4744, 0, 2e5),
 'Barati_high': (barati_high, 0, 1e6), 'Rouse': (lambda R: 24/R + 3/R**.5 + .34, 0, 2e5), 'Engelund_Hansen': (lambda R: 24/R + 1.5, 0, 2e5),
 'Clift_Gauvin': (lambda R: 24/R*(1 + .152*R**.677) + .417/(1 + 5070*R**-.94), 0, 2e5), 'Morsi_Alexander': (morsi, 0, 2e5), 'Graf': (lambda R: 24/R + 7.3/(1 + R**.5) + .25, 0, 2e5),
 'Flemmer_Banks': (lambda R: 24/R*10**(.383*R**.356 - .207*R**.396 - .143/(1 + l10(R)**2)), 0, 2e5), 'Khan_Richardson': (lambda R: (2.49*R**-.328 + .34*R**.067)**3.18, 0, 2e5),
 'Swamee_Ojha': (lambda R: .5*(16*((24/R)**1.6 + (130/R)**.72)**2.5 + ((40000/R)**2 + 1)**-.25)**.25, 0, 1.5e5), 'Yen': (lambda R: 24/R*(1 + .15*R**.5 + .017*R) - .208/(1 + 1e4*R**-.5), 0, 2e5),
 'Haider_Levenspiel': (lambda R: 24/R*(1 + .1806*R**.6459) + .4251/(1 + 6880.95/R), 0, 2e5), 'Cheng': (lambda R: 24/R*(1 + .27*R)**.43 + .47*(1 - exp(-.04*R**.38)), 0, 2e5),
 'Terfous': (lambda R: 2.689 + 21.683/R + .131/R**2 - 10.616/R**.1 + 12.216/R**.2, .1, 5e4), 'Mikhailov_Freire': (lambda R: 3808*(1617933/2030 + 178861/1063*R + 1219/1084*R*R)/(681*R*(77531/422 + 13529/976*R - R*R/71154)), 0, 118300),
 'Clift': (clift, 0, 1e6), 'Ceylan': (lambda R: 1 - .5*exp(.182) + 10.11*R**(-2/3)*exp(.952*R**-.25) - .03859*R**(-4/3)*exp(1.30*R**-.5) + .037e-4*R*exp(-.125e-4*R) - .116e-10*R*R*exp(-.444e-5*R), .1, 1e6),
 'Almedeij': (almedeij, 0, 1e6), 'Morrison': (lambda R: 24/R + 2.6*R/5/(1 + (R/5)**1.52) + .411*(R/263000)**-7.94/(1 + (R/263000)**-8) + R**.8/461000, 0, 1e6), 'Song_Xu': (lambda R: 24/R*(1 + .35*R)**.44, 0, 1e3)}
def default(R):
    if R > .1: return REF['Barati'][0](R) if R <= 212963.26847812787 else barati_high(R)
    if R >= .01: a = (R - .01)/.09; return a*REF['Barati'][0](R) + (1 - a)*24/R
    return 24/R
LIM = [.01, .1, .3, 1., 10., 20., 100., 260., 1000., 1500., 5000., 1e4, 12000., 44000., 5e4, 118300., 1.5e5, 2e5, 212963.26847812787, 338000., 4e5, 1e6]
@st.composite
def RE(draw):
    k = draw(ints(0, 5))
    if k < 4: return draw(lf(1e-8, 1e6) if k < 2 else lf(1e-2, 1e6))
    x = draw(pick(LIM)); return x*(1 + draw(pick(-1e-6, 1e-6, 1e-3, -1e-3))) if k == 4 else x
@P.sub(rec(m=pick(sorted(REF)), R=RE()), n=2500)
def correlations(ctx, m, R):
    f, lo, hi = REF[m]
    if R < lo*.01: raise SkipCase
    w = f(R)
    close(getattr(drag, m)(R), w, 1e-8, 1e-9, m); close(drag_sphere(R, Method=m), w, 1e-8, 1e-9, 'drag_sphere with ' + m)
    if lo < R <= hi: ensure(drag_sphere(R, Method=m) > 0, 'negative drag')
    ctx.nontrivial(lo < R <= hi); ctx.label(m)
@P.sub(rec(R=RE(), sph=uf(.2, 1.), S=uf(.3, 3.)), n=1200)
def general(ctx, R, sph, S):
    close(drag_sphere(R), default(R), 1e-8, 1e-10, 'default drag'); close(Song_Xu(R, sphericity=sph, S=S), 24/(R*sph**.65*S**.3)*(1 + .35*R)**.44, 1e-10, what='Song_Xu')
    ms = drag_sphere_methods(R); edge = {m for m, (f, lo, hi) in REF.items() if R in (lo, hi)}
    ensure(set(ms) - edge == {m for m, (f, lo, hi) in REF.items() if lo < R <= hi} - edge and len(set(ms)) == len(ms), 'methods at Re=%r: %r', R, ms); ensure(set(drag_sphere_methods(R, check_ranges=False)) == set(REF), 'all methods')
    for m in ms: close(drag_sphere(R, Method=m), REF[m][0](R), 1e-8, 1e-9, m)
    raises(ValueError, drag_sphere, R, Method='Newton', what='unknown method'); ctx.nontrivial(True)
fluid = dict(D=lf(1e-7, .03), liq=pick(True, False), rr=lf(1.02, 12.), rho=lf(.2, 1.5), mu=lf(2e-4, 1.))
def state(D, liq, rr, rho, mu):
    if liq: rho *= 900
    else: mu = 1e-5*(1 + 3*rho)
    return D, rho*rr if liq else 1000*rr, rho, mu
@P.sub(rec(m=pick([None, None, None] + sorted(REF)), **fluid), n=1200)
def terminal(ctx, m, **c):
    D, rp, rho, mu = state(**c); lam = 9.80665*D*D*(rp - rho)/(18*mu); Rl = rho*lam*D/mu
    if m is not None and m != 'Stokes' and not ar_range(m, D, rp, rho, mu): raise SkipCase
    if m is None and not ar_range(None, D, rp, rho, mu): raise SkipCase
    v = v_terminal(D, rp, rho, mu, Method=m)
    if Rl < .01 or m == 'Stokes': close(v, lam, 1e-11, what='Stokes velocity'); ctx.label('laminar'); ctx.nontrivial(m == 'Stokes'); return
    ensure(isinstance(v, float) and v > 0, 'terminal velocity %r', v); R = rho*v*D/mu; f = default if m is None else REF[m][0]
    weight = (rp - rho)*9.80665*pi/6*D**3; F = lambda k: f(R*k)*rho*(k*v)**2/2*pi/4*D*D
    if F(1 - 1e-6) <= weight <= F(1 + 1e-6): ctx.label('Re1e%d' % floor(l10(R))); return         # includes a jump between branches of the correlation
    close(F(1.), weight, 1e-6, what='drag against submerged weight (%r, Re=%g)' % (m, R)); ctx.nontrivial(True); ctx.label('Re1e%d' % floor(l10(R)))
def ar_range(m, D, rp, rho, mu):
    """the force balance has its solution inside the range of the method, with drag force rising through it"""
    lo, hi = (0, 9e5) if m is None else REF[m][1:]; f = default if m is None else REF[m][0]
    Ar4 = 4/3*9.80665*D**3*rho*(rp - rho)/mu**2        # Cd*Re^2
    if not f(hi*.9)*(hi*.9)**2 > Ar4*1.05: return False
    return lo == 0 or f(max(lo, 1e-3)*1.2)*(max(lo, 1e-3)*1.2)**2 < Ar4*.95
@P.sub(rec(V0=inear(uf(0., 5.), [0.]), sgn=pick(1, 1, -1), tol=pick(None, 1e-3, 1e-6, 1e-9), **fluid), n=300)
def stokes_time(ctx, V0, sgn, tol, **c):
    """time to come within tol of the terminal velocity in Stokes flow: the analytical solution of the linear equation of motion"""
    D, rp, rho, mu = state(**c); vt = 9.80665*D*D*(rp - rho)/(18*mu); a = 18*mu/(D*D*rp); V0 = V0*vt*sgn
    if abs(V0/vt - 1) < .01: raise SkipCase
    t = time_v_terminal_Stokes(D, rp, rho, mu, V0, **({} if tol is None else {'tol': tol}))
    if tol is None: ensure(t > 0, 'time %r', t); return
    want = log(abs(V0 - vt)/(tol*vt))/a; close(t, want, 1e-5 + 1e-15/tol/max(1e-3, log(abs(V0 - vt)/(tol*vt))), what='time'); ctx.nontrivial(True)
@P.sub(rec(tau=lf(.02, 30.), V0=inear(uf(0., 3.), [0.]), method=pick('Stokes', 'Stokes', None), **{**fluid, 'D': lf(1e-7, 5e-5)}), n=250)
def stokes_motion(ctx, tau, V0, method, **c):
    D, rp, rho, mu = state(**c); a = 18*mu/(D*D*rp); vt = 9.80665*D*D*(rp - rho)/(18*mu); V0 *= vt; t = tau/a
    if method is None and max(V0, vt)*D*rho/mu > .0099: raise SkipCase
    want = vt + (V0 - vt)*exp(-tau); x = vt*t + (V0 - vt)*-expm1(-tau)/a
    close(integrate_drag_sphere(D, rp, rho, mu, t, V=V0, Method=method), want, 1e-8, what='velocity'); V, X = integrate_drag_sphere(D, rp, rho, mu, t, V=V0, Method=method, distance=True)
    close(V, want, 1e-8, what='velocity'); close(X, x, 1e-8 + 1e-13/tau**2, what='distance'); ctx.nontrivial(.1 < tau < 10)
@P.sub(rec(k=lf(800., 1e6), V0=uf(0., 3.), **{**fluid, 'D': lf(1e-7, 5e-5)}), n=80)
def stokes_long(ctx, k, V0, **c):
    """times much longer than the relaxation time: terminal velocity, distance vt t plus the initial excess"""
    D, rp, rho, mu = state(**c); a = 18*mu/(D*D*rp); vt = 9.80665*D*D*(rp - rho)/(18*mu); V0 *= vt; t = k/a
    if abs(V0/vt - 1) < .01: raise SkipCase
    V, X = integrate_drag_sphere(D, rp, rho, mu, t, V=V0, Method='Stokes', distance=True); close(V, vt, 1e-7, what='terminal velocity'); close(X, vt*t + (V0 - vt)/a, 1e-7, what='distance'); ctx.nontrivial(True)
def rk(D, rp, rho, mu, t, V0, m, n):
    """fixed-step RK4 with an exponential change of time step: independent integration of the equation of motion"""
    f = default if m is None else REF[m][0]; c1 = 9.80665*(rp - rho)/rp; c2 = -.75*rho/(D*rp); s = rho*D/mu
    acc = lambda v: c1 + (c2*v*v*f(s*v) if v > 0 else 0.)
    v, x = V0, 0.; h = t/n
    for _ in range(n):
        k1 = acc(v); k2 = acc(v + h/2*k1); k3 = acc(v + h/2*k2); k4 = acc(v + h*k3); x += h*v + h*h/6*(k1 + k2 + k3); v += h/6*(k1 + 2*k2 + 2*k3 + k4)
    return v, x
@P.sub(rec(tau=lf(.05, 4.), V0=inear(uf(0., 3.), [0.]), m=pick(None, None, 'Rouse', 'Clift_Gauvin', 'Haider_Levenspiel', 'Morsi_Alexander'), **{**fluid, 'D': lf(3e-5, .01)}), n=150, hang=120)
def motion(ctx, tau, V0, m, **c):
    """velocity and distance against an independent fourth-order integration"""
    D, rp, rho, mu = state(**c)
    if not ar_range(m, D, rp, rho, mu): raise SkipCase
    vt = v_terminal(D, rp, rho, mu, Method=m); R = rho*vt*D/mu
    if R < .05 or 3*R > 1e5: raise SkipCase
    t = tau*vt*rp/(9.80665*(rp - rho)); V0 *= vt
    f = default if m is None else REF[m][0]; rate = .75*rho/(D*rp)*2*max(vt, V0)*max(f(R*max(1, V0/vt)), 24/R)       # stiffness bound
    n = int(min(4000, max(400, 8*rate*t)))
    v, x = rk(D, rp, rho, mu, t, V0, m, n); v2, x2 = rk(D, rp, rho, mu, t, V0, m, n//2)
    if abs(v - v2) > 1e-6*vt or abs(x - x2) > 1e-6*vt*t: raise SkipCase
    close(integrate_drag_sphere(D, rp, rho, mu, t, V=V0, Method=m), v, 2e-5, 2e-6*vt + 1e-7, what='velocity'); V, X = integrate_drag_sphere(D, rp, rho, mu, t, V=V0, Method=m, distance=True); close(V, v, 2e-5, 2e-6*vt + 1e-7, what='velocity'); close(X, x, 1e-4, 1e-5*vt*t + 1e-7*t, what='distance'); ctx.nontrivial(True)
