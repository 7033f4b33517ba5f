"""C29: flow regime maps and the Beggs-Brill procedure."""
from math import sqrt, log, log10, exp, pi, sin, cos, radians, acos
import numpy as np
from scipy.interpolate import BSpline
from scipy.optimize import brentq
import fluids
from fluids import two_phase
from vf.core import *
from .c27 import ff

P = Prop('C29', rule='States drawn in the coordinates of each map (superficial velocities; X, F, T, K; Froude number and no-slip holdup) so that every regime and both sides of every transition line are met, then mapped back to flow rate and quality. Non-trivial: every distinct state.',
         assumptions=['Taitel-Dukler curves A, C, D are the digitised curves shipped with the code (copied here) and, independently, the Taitel-Dukler theory within 25 %'])
G0 = 9.80665
# ------------------------------------------------------------- Mandhane-Gregory-Aziz
def mandhane(Vsl, Vsg, rhol, rhog, mul, mug, sigma):
    l, g = Vsl/.3048, Vsg/.3048
    s = (rhol*.0724/(999.552*sigma))**.25
    X1 = (rhog/1.294292)**.333*s*(mug*1.8e5)**.2; Y1 = s*(mul*1e3)**.2
    near = []
    def tab(rows):
        for i, (lim, f) in enumerate(rows):
            if lim is None or l <= lim:
                if lim and abs(l/lim - 1) < 1e-9 or i and abs(l/rows[i-1][0] - 1) < 1e-9: raise SkipCase
                return f(l)
    near.append(l/(14*Y1))
    if l < 14*Y1:
        a = X1*tab([(.1, lambda v: 14*(v/.1)**-.368), (.2, lambda v: 14*(v/.1)**-.415), (1.15, lambda v: 10.5*(v/.2)**-.816), (4.8, lambda v: 2.5), (None, lambda v: 2.5*(v/4.8)**.248)])
        b = X1*tab([(.1, lambda v: 70*(v/.01)**-.0675), (.3, lambda v: 60*(v/.1)**-.415), (.56, lambda v: 38*(v/.3)**.0813), (1., lambda v: 40*(v/.56)**.385), (2.5, lambda v: 50*v**.756), (None, lambda v: 100*(v/2.5)**.463)])
        near += [g/a, g/b, l*Y1/.5, l/(.3*Y1)]
        if g <= a: reg = 'elongated bubble' if l >= .5/Y1 else 'stratified'
        elif g <= b: reg = 'slug' if l > .3*Y1 else 'wave'
        else: reg = 'annular mist'
    else:
        d = 230*(l/14)**.206*X1
        near.append(g/d)
        reg = 'dispersed bubble' if g <= d else 'annular mist'
    if any(abs(q - 1) < 1e-9 for q in near): raise SkipCase
    return reg, l, g
@P.sub(rec(l=lf(3e-4, 60), g=lf(3e-3, 300), rhol=uf(300, 2000), rhog=lf(.1, 100), mul=lf(1e-4, .1), mug=lf(5e-6, 5e-5), sigma=lf(1e-3, .08), D=lf(1e-3, 1)), n=2500)
def Mandhane(ctx, l, g, rhol, rhog, mul, mug, sigma, D):
    A = pi/4*D*D; m = A*(l*rhol + g*rhog); x = g*rhog*A/m
    l, g = m*(1 - x)/rhol/A, m*x/rhog/A
    want = mandhane(l, g, rhol, rhog, mul, mug, sigma)
    got = two_phase.Mandhane_Gregory_Aziz_regime(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, D=D)
    ensure(got[0] == want[0], 'regime %r, boundaries say %r', got[0], want[0])
    closes(got[1:], want[1:], 1e-11, 0, 'superficial velocities (ft/s)')
    ensure(got[0] in two_phase.Mandhane_Gregory_Aziz_regimes, 'regime %r not listed', got[0])
    ctx.label(got[0])

# ------------------------------------------------------------- Taitel-Dukler
TCK = {'A': ([-2.4791105294648372]*4 + [0.14360803483759585] + [1.7199938263676038]*4, [0.21299880246561081, 0.16299733301915248, -0.042340970712679615, -1.9967836909384598, -2.9917366639619414]),
       'C': ([-1.8323873272724698]*4 + [-0.15428198203334137] + [1.7031193462360779]*4, [0.2827776229531682, 0.6207113329042158, 1.0609541626742232, 0.44917638072891825, 0.014664597632360495]),
       'D': ([0.2532652936901574]*4 + [3.5567847823070253]*4, [0.09054274779541564, -0.05102629221303253, -0.23907463153703945, -0.7757156285450911])}
CURVE = {k: BSpline(np.array(t), np.array(c), 3, extrapolate=True) for k, (t, c) in TCK.items()}
def curve(k, X): return 10**float(CURVE[k](log10(X)))
def geom(h):
    q = 2*h - 1; a = acos(q); r = sqrt(1 - q*q)
    Al = .25*(pi - a + q*r); Ag = .25*(a - q*r); Sl = pi - a; Sg = a; Si = r
    ul, ug = pi/4/Al, pi/4/Ag
    return Al, Ag, Sl, Sg, Si, ul, ug, 4*Al/Sl, 4*Ag/(Sg + Si)
def X2(h, n=.2, m=.2):
    Al, Ag, Sl, Sg, Si, ul, ug, Dl, Dg = geom(h)
    return (ug*Dg)**-m*ug**2*(Sg/Ag + Si/Al + Si/Ag)/((ul*Dl)**-n*ul**2*Sl/Al)
def theory(X):
    """Taitel & Dukler (1976), turbulent-turbulent, horizontal: F on curve A, K on curve C (s = 0.01), T on curve D"""
    h = brentq(lambda h: log(X2(h)) - 2*log(X), 1e-6, 1 - 1e-6, xtol=1e-13)
    Al, Ag, Sl, Sg, Si, ul, ug, Dl, Dg = geom(h)
    F = (1 - h)*sqrt(Ag/(ug**2*Si)); K = 2/(sqrt(ul)*ug*sqrt(.01)); T = sqrt(8*Ag/(Si*ul**2*(ul*Dl)**-.2))
    return h, F, K, T
RANGE = {'A': (.004, 50), 'C': (.02, 50), 'D': (1.9, 3000)}
def td_state(Rel, Reg, rhol, rr, mul, mr, D, angle, e, g):
    rhog, mug = rhol/rr, mul/mr
    Gl, Gg = Rel*mul/D, Reg*mug/D
    A = pi/4*D*D; m = (Gl + Gg)*A; x = Gg/(Gl + Gg)
    kw = dict(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, D=D, angle=angle)
    if e is not None: kw['roughness'] = e*D
    if g is not None: kw['g'] = g
    return kw
def td_coords(m, x, rhol, rhog, mul, mug, D, angle, roughness=0., g=G0):
    A = pi/4*D*D; c = cos(radians(angle)); vl, vg = m*(1 - x)/rhol/A, m*x/rhog/A
    Rl, Rg = rhol*vl*D/mul, rhog*vg*D/mug
    dl, dg = ff(Rl, roughness/D)/D*rhol*vl*vl/2, ff(Rg, roughness/D)/D*rhog*vg*vg/2
    F = sqrt(rhog/(rhol - rhog))*vg/sqrt(D*g*c)
    return sqrt(dl/dg), sqrt(dl/((rhol - rhog)*g*c)), F, F*sqrt(Rl)
TD = dict(Rel=lf(1, 1e7), Reg=lf(1, 1e7), rhol=uf(300, 2000), rr=lf(1.05, 2000), mul=lf(5e-5, .05), mr=lf(1.2, 300), D=lf(1e-3, 2), angle=inear(uf(-80, 80), [0.], 3), e=opt(lf(1e-6, .05)), g=opt(lf(1, 30)))
def td_regime(X, T, F, K, f=curve):
    near = [X/1.7917]
    a = f('A', X); near.append(F/a)
    if F >= a:
        if X <= 1.7917: reg = 'annular'
        else:
            d = f('D', X); near.append(T/d); reg = 'bubbly' if T >= d else 'intermittent'
    else:
        c = f('C', X); near.append(K/c); reg = 'stratified wavy' if K >= c else 'stratified smooth'
    return reg, near
def td_check(ctx, kw):
    X, T, F, K = td_coords(**kw)
    got = two_phase.Taitel_Dukler_regime(**kw)
    closes(got[1:], (X, T, F, K), 1e-8, 0, 'Taitel-Dukler X, T, F, K')
    reg, near = td_regime(X, T, F, K)
    if all(abs(q - 1) > 1e-7 for q in near):
        ensure(got[0] == reg, 'regime %r, the digitised curves give %r (X=%g T=%g F=%g K=%g)', got[0], reg, X, T, F, K)
    ctx.label(got[0])
    if 2.2 < X < 40 or .01 < X < 1.3:
        h, Ft, Kt, Tt = theory(X)
        reg, near = td_regime(X, T, F, K, lambda k, X: {'A': Ft, 'C': Kt, 'D': Tt}[k])
        if all(abs(log(q)) > log(1.5) for q in near[1:]) and (reg[:4] != 'stra' or .03 < X):
            ensure(got[0] == reg, 'regime %r, Taitel-Dukler theory gives %r (X=%g T=%g F=%g K=%g)', got[0], reg, X, T, F, K)
            ctx.label('theory')
@P.sub(rec(**TD), n=600)
def Taitel_Dukler(ctx, **k):
    kw = td_state(**k)
    td_check(ctx, kw)
@P.sub(rec(X=lf(.006, 200, (1.7917,)), F=lf(1e-4, 20), Rel=lf(5, 1e6), rhol=uf(300, 2000), rr=lf(1.5, 2000), mul=lf(5e-5, .02), mr=lf(1.2, 300), near=inear(lf(.01, 100), [.999, 1.001, 1.02, .98], 3), e=opt(lf(1e-6, .02))), n=900)
def Taitel_Dukler_aimed(ctx, X, F, Rel, rhol, rr, mul, mr, near, e):
    # choose F relative to curve A, find Reg for X, then D from F (near: ratio to curve A)
    F = curve('A', X)*near if near != 1 else F
    rhog, mug = rhol/rr, mul/mr
    # X^2 = f(Rel) Rel^2 mul^2/rhol / (f(Reg) Reg^2 mug^2/rhog), independent of D when smooth
    lhs = lambda Rg: log(ff(Rel*(1+1e-7), e or 0.)*Rel**2*mul**2/rhol/(ff(Rg, e or 0.)*Rg**2*mug**2/rhog)) - 2*log(X)
    try: Reg = brentq(lhs, 1e-3, 1e12)
    except ValueError: raise SkipCase
    # F^2 = rhog vg^2/((rhol-rhog) D g), vg = Reg mug/(rhog D)  -> D^3
    D = ((Reg*mug/rhog)**2*rhog/((rhol - rhog)*G0*F*F))**(1/3)
    if not 1e-4 < D < 20: raise SkipCase
    td_check(ctx, td_state(Rel, Reg, rhol, rr, mul, mr, D, 0., e, None))

# ------------------------------------------------------------- Beggs-Brill
LIM = (lambda l: 316*l**.302, lambda l: 9.252e-4*l**-2.4684, lambda l: .1*l**-1.4516, lambda l: .5*l**-6.738)
def bb_regime(lam, Fr):
    L1, L2, L3, L4 = (f(lam) for f in LIM)
    if any(abs(Fr/b - 1) < 1e-9 for b in (L1, L2, L3, L4)) or any(abs(lam/b - 1) < 1e-9 for b in (.01, .4)): raise SkipCase
    if (lam < .01 and Fr < L1) or (lam >= .01 and Fr < L2): return 'segregated'
    if lam >= .01 and L2 <= Fr <= L3: return 'transition'
    if (.01 <= lam < .4 and L3 < Fr <= L1) or (lam >= .4 and L3 < Fr <= L4): return 'intermittent'
    if (lam < .4 and Fr >= L1) or (lam >= .4 and Fr > L4): return 'distributed'
    raise SkipCase
ABC = dict(segregated=(.98, .4846, .0868), intermittent=(.845, .5351, .0173), distributed=(1.065, .5824, .0609))
UP = dict(segregated=(.011, -3.768, 3.539, -1.614), intermittent=(2.96, .305, -.4473, .0978))
def bb_holdup(reg, lam, Fr, th, Nlv):
    a, b, c = ABC[reg]
    H = max(a*lam**b/Fr**c, lam)
    if th == 0 or (th > 0 and reg == 'distributed'): return H
    d, e, f, g = UP[reg] if th > 0 else (4.7, -.3692, .1244, -.5056)
    C = max(0., (1 - lam)*log(d*lam**e*Nlv**f*Fr**g))
    s = sin(1.8*th)
    return H*(1 + C*(s - s**3/3))
def bb(m, x, rhol, rhog, mul, mug, sigma, P, D, angle, roughness=0., L=1., g=G0, acceleration=True):
    A = pi/4*D*D; vl, vg = m*(1 - x)/rhol/A, m*x/rhog/A; v = vl + vg
    Fr = v*v/g/D; lam = vl/v; th = radians(angle); Nlv = vl*(rhol/(g*sigma))**.25
    reg = bb_regime(lam, Fr)
    if reg == 'transition':
        L2, L3 = LIM[1](lam), LIM[2](lam); w = (L3 - Fr)/(L3 - L2)
        H = w*bb_holdup('segregated', lam, Fr, th, Nlv) + (1 - w)*bb_holdup('intermittent', lam, Fr, th, Nlv)
    else: H = bb_holdup(reg, lam, Fr, th, Nlv)
    rs = rhol*H + rhog*(1 - H); rn = rhol*lam + rhog*(1 - lam); mn = mul*lam + mug*(1 - lam)
    y = lam/H**2
    if min(abs(y - 1), abs(y - 1.2)) < 1e-9: raise SkipCase
    if 1 < y < 1.2: S = log(2.2*y - 1.2)
    else:
        ly = log(y); S = ly/(-.0523 + 3.182*ly - .8725*ly**2 + .01853*ly**4)
    S = min(S, 7.)
    ftp = ff(rn*v*D/mn, roughness/D)*exp(S)
    ele = rs*g*sin(th)*L; fri = ftp*rn*v*v/2*L/D
    Ek = rs*v*vg/P if acceleration else 0.
    return reg, H, ele, fri, Ek
BB = dict(lam=inear(lf(1e-4, .999), [.01, .0099, .0101, .4, .39, .41], 6), Fr=lf(1e-3, 1e4), pos=inear(uf(-.5, 1.5), [0., 1., .02, .98], 4), aim=ints(0, 4), rhol=uf(300, 1500), rr=lf(3, 1000), mul=lf(1e-4, .05), mr=lf(2, 200), sigma=lf(2e-3, .08), D=lf(.005, 1), angle=inear(uf(-90, 90), [0., 90., -90., 1e-3, -1e-3], 3),
          Pp=lf(1e4, 1e7), e=opt(lf(1e-6, .02)), L=opt(lf(.1, 1e3)), g=opt(lf(2, 30)), acc=pick([None, True, False]))
@P.sub(rec(**BB), n=1500)
def Beggs_Brill(ctx, lam, Fr, pos, aim, rhol, rr, mul, mr, sigma, D, angle, Pp, e, L, g, acc):
    if aim:   # near a transition line
        b = LIM[aim - 1](lam); Fr = b*10**((pos - .5)*.5)
    gg = g or G0
    v = sqrt(Fr*gg*D); rhog, mug = rhol/rr, mul/mr
    A = pi/4*D*D; ml, mg = lam*v*A*rhol, (1 - lam)*v*A*rhog
    kw = dict(m=ml + mg, x=mg/(ml + mg), rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=Pp, D=D, angle=angle)
    if e is not None: kw['roughness'] = e*D
    if L is not None: kw['L'] = L
    if g is not None: kw['g'] = g
    if acc is not None: kw['acceleration'] = acc
    reg, H, ele, fri, Ek = bb(**kw)
    if H > 3 or H < 1e-6: raise SkipCase
    if abs(1 - Ek) < 1e-4: raise SkipCase
    got = two_phase.Beggs_Brill(**kw)
    close(got, (ele + fri)/(1 - Ek), 1e-8, 1e-9*(abs(ele) + fri)/abs(1 - Ek), 'Beggs_Brill (%s, holdup %.4g)' % (reg, H))
    ctx.label(reg, 'up' if angle > 0 else 'down' if angle < 0 else 'horizontal')
    if acc is False:
        k2 = {k: v for k, v in kw.items() if k not in ('acceleration', 'g')}
        if g is None:
            close(two_phase.two_phase_dP(Method='Beggs-Brill', **k2), got, 1e-12, 0, 'two_phase_dP Beggs-Brill')
        kw['L'] = 5*(L or 1.)
        close(two_phase.Beggs_Brill(**kw), 5*got, 1e-12, 0, 'proportional to length')
