"""C16: control-valve sizing."""
from math import sqrt, log10, inf
import fluids
from fluids import control_valve as cv
from vf.core import *
from vf.refs import reffer
from vf.tables import *

P = Prop('C16', rule='Liquid and gas services over wide log ranges of flow, viscosity, pressure ratio and size; piping absent, equal, larger or smaller; choking and laminar flow allowed or not. Non-trivial: fittings, laminar or choked branch active (labels), or any distinct formula input.',
         assumptions=['IEC 60534-2-1 numerical constants N1..N32 as tabulated in the standard', 'valve characteristic curves are the digitised data of the pinned tree (props/data/control_valve.json)'])
r = reffer(P, _n=150, _rtol=1e-11)
T = load('control_valve')
N1, N2, N4, N5, N9, N18, N32 = .1, 1.6e-3, 7.07e-2, 1.8e-3, 24.6, .865, 140.
RHO0 = 999.10329075702327
RG = 8.31446261815324
def near(x, k, t=1e-9): return abs(x/k - 1) < t if k else abs(x) < t

# ---------------------------------------------------------------- building blocks
def FF(Psat, Pc): return .96 - .28*(Psat/Pc)**.5
def rev(nu, Q, D1, FL, Fd, C): return N4*Fd*Q/(nu*(C*FL)**.5)*((FL*C)**2/(N2*D1**4) + 1)**.25
def loss(d, D1=None, D2=None):
    s = 0.
    if D1: s += .5*(1 - (d/D1)**2)**2 + (1 - (d/D1)**4)
    if D2: s += (1 - (d/D2)**2)**2 - (1 - (d/D2)**4)
    return s
def FRf(FL, C, d, Rev, full, cap=False):
    if full:
        n = N2/min(C/d**2, .04)**2; b = .026/FL*(n*Rev)**.5
        if cap: b = min(1., b)
    else:
        n = 1 + N32*(C/d**2)**(2/3); b = min(1., .026/FL*(n*Rev)**.5)
    a = 1 + .33*FL**.5/n**.25*log10(Rev/1e4)
    return b if Rev < 10 else min(a, b)

r('cavitation_index', lambda P1, P2, Psat: (P1 - Psat)/(P1 - P2), P1=lf(1e5, 1e8), P2=lf(1e3, 9e4), Psat=lf(1, 9e4))
r('FF_critical_pressure_ratio_l', FF, Psat=lf(1, 1e6), Pc=lf(1e6, 5e7))
FLg = inear(uf(.4, 1.), [.9, 1.])
def chokel(Psat, Pc, FL, P1=None, P2=None, check_choking=None):
    f = FF(Psat, Pc)
    if P1 is None: P1 = ans = (f*FL**2*Psat - P2)/(FL**2 - 1)
    else: P2 = ans = P1 - FL**2*(P1 - f*Psat)
    if near(P1, P2, 1e-6): raise SkipCase
    if P2 > P1 and check_choking is not False: return ValueError
    return ans
FLr = uf(.4, .98)
r('control_valve_choke_P_l', chokel, _name='choke_P2_l', _rtol=1e-9, _atol=1e-6, _n=250, Psat=lf(1, 2e6), Pc=lf(2e6, 5e7), FL=FLr, P1=lf(1e3, 1e8), check_choking=opt(pick(True, False)))
r('control_valve_choke_P_l', chokel, _name='choke_P1_l', _rtol=1e-9, _n=250, Psat=lf(1, 2e6), Pc=lf(2e6, 5e7), FL=FLr, P2=lf(1e3, 1e8), check_choking=opt(pick(True, False)))
r('control_valve_choke_P_g', lambda xT, gamma, P1: P1*(1 - gamma/1.4*xT), _name='choke_P2_g', xT=uf(.1, .75), gamma=uf(1.05, 1.67), P1=lf(1e3, 1e8))
r('control_valve_choke_P_g', lambda xT, gamma, P2: P2/(1 - gamma/1.4*xT), _name='choke_P1_g', xT=uf(.1, .75), gamma=uf(1.05, 1.67), P2=lf(1e3, 1e8))
@P.sub(rec(Psat=lf(1, 1e5), Pc=lf(1e6, 5e7), FL=FLr, P1=lf(2e5, 1e8), xT=uf(.1, .75), gamma=uf(1.05, 1.67)), n=250)
def choke_pressures_are_the_choke_boundary(ctx, Psat, Pc, FL, P1, xT, gamma):
    P2 = cv.control_valve_choke_P_l(Psat, Pc, FL, P1=P1); F = cv.FF_critical_pressure_ratio_l(Psat, Pc)
    close(cv.control_valve_choke_P_l(Psat, Pc, FL, P2=P2), P1, 1e-8, what='P1 from P2')
    for q, want in ((1 - 1e-7, True), (1 + 1e-7, False)):
        ensure(bool(cv.is_choked_turbulent_l(dP=P1 - P2*q if want else P1 - P2 - (P1 - P2)*1e-7, P1=P1, Psat=Psat, FF=F, FL=FL)) == want, 'liquid choking flag wrong at %g of the choke pressure drop', q)
    P2 = cv.control_valve_choke_P_g(xT, gamma, P1=P1)
    close(cv.control_valve_choke_P_g(xT, gamma, P2=P2), P1, 1e-9, what='gas P1 from P2')
    for q, want in ((1 + 1e-7, True), (1 - 1e-7, False)):
        ensure(bool(cv.is_choked_turbulent_g(x=q*(P1 - P2)/P1, Fgamma=gamma/1.4, xT=xT)) == want, 'gas choking flag wrong at %g', q)
    raises(ValueError, cv.control_valve_choke_P_g, xT, gamma); raises(ValueError, cv.control_valve_choke_P_g, xT, gamma, P1, P2)
    raises(ValueError, cv.control_valve_choke_P_l, Psat, Pc, FL); raises(ValueError, cv.control_valve_choke_P_l, Psat, Pc, FL, P1, P2)
@P.sub(rec(dP=lf(1e3, 1e8), P1=lf(1e5, 1e8), Psat=lf(1, 1e6), f=uf(.6, .96), FL=opt(FLg, 4), FLP=opt(FLg), FP=opt(uf(.5, 1))), n=400)
def is_choked_turbulent_l(ctx, dP, P1, Psat, f, FL, FLP, FP):
    kw = {k: v for k, v in dict(FL=FL, FLP=FLP, FP=FP).items() if v is not None}
    if FLP is not None and FP is not None: lim = (FLP/FP)**2*(P1 - f*Psat)
    elif FL is not None: lim = FL**2*(P1 - f*Psat)
    else:
        raises(ValueError, cv.is_choked_turbulent_l, dP, P1, Psat, f, **kw); return
    if abs(dP - lim) < 1e-9*abs(lim): raise SkipCase
    got = cv.is_choked_turbulent_l(dP, P1, Psat, f, **kw)
    ctx.label(bool(got)); ensure(bool(got) == (dP >= lim), 'is_choked_turbulent_l: %r for dP=%g limit=%g', got, dP, lim)
@P.sub(rec(x=uf(.01, 1), F=uf(.7, 1.2), xT=opt(uf(.1, .9), 4), xTP=opt(uf(.1, .9))), n=300)
def is_choked_turbulent_g(ctx, x, F, xT, xTP):
    kw = {k: v for k, v in dict(xT=xT, xTP=xTP).items() if v is not None}
    if not kw: raises(ValueError, cv.is_choked_turbulent_g, x, F); return
    if xT is not None and xTP is not None: raise SkipCase
    lim = F*(xT if xT is not None else xTP)
    if near(x, lim): raise SkipCase
    got = cv.is_choked_turbulent_g(x, F, **kw)
    ctx.label(bool(got)); ensure(bool(got) == (x >= lim), 'is_choked_turbulent_g: %r for x=%g limit=%g', got, x, lim)
r('Reynolds_valve', rev, nu=lf(1e-8, 1e-2), Q=lf(1e-4, 1e5), D1=lf(5, 1000), FL=FLg, Fd=uf(.05, 1), C=lf(1e-4, 1e5))
r('loss_coefficient_piping', loss, _atol=1e-14, _n=300, d=lf(.01, 1), D1=opt(lf(.01, 1), 4), D2=opt(lf(.01, 1), 4))
@P.sub(rec(d=lf(.01, 1), D1=opt(lf(.01, 1), 3), D2=opt(lf(.01, 1), 3), s=lf(1e-3, 1e4)), n=100)
def loss_coefficient_is_scale_free(ctx, d, D1, D2, s):
    k = lambda v: None if v is None else v*s
    close(cv.loss_coefficient_piping(d, D1, D2), cv.loss_coefficient_piping(d*s, k(D1), k(D2)), 1e-9, 1e-12)
    close(cv.loss_coefficient_piping(d, d, d), 0, atol=1e-14)
@P.sub(rec(FL=FLg, C=lf(1e-5, 1e3), d=lf(1, 500), Rev=lf(1e-2, 1e5, (10.,)), full=pick(None, True, False)), n=800)
def Reynolds_factor(ctx, FL, C, d, Rev, full):
    kw = {} if full is None else dict(full_trim=full)
    f = full is not False
    a, b = FRf(FL, C, d, Rev, f), FRf(FL, C, d, Rev, f, cap=True)
    ctx.label('full' if f else 'reduced', 'Rev<10' if Rev < 10 else 'Rev>=10', 'n1 capped' if f and C/d**2 > .04 else '')
    got = cv.Reynolds_factor(FL, C, d, Rev, **kw)
    try: close(got, b, 1e-10, what='FR')
    except Violation: close(got, a, 1e-10, what='FR')   # the missing cap at 1 is the recorded finding (sub FR_cap)
@P.sub(rec(FL=FLg, C=lf(1e-5, 1e3), d=lf(1, 500), Rev=lf(1e-2, 1e5, (10.,)), full=pick(True, False), known=False), n=300)
def FR_cap(ctx, FL, C, d, Rev, full, known):
    got = cv.Reynolds_factor(FL, C, d, Rev, full_trim=full)
    if not known and full and (Rev < 10 and .026/FL*(N2/min(C/d**2, .04)**2*Rev)**.5 > 1 or Rev > 1e4): raise SkipCase   # recorded finding / turbulent
    if Rev > 1e4: raise SkipCase
    ensure(0 < got <= 1 + 1e-12, 'Reynolds factor %g outside (0, 1] at Rev=%g', got, Rev)

# ---------------------------------------------------------------- reference sizing
class Trace: pass
def piping(o, Ci, d, D1, D2, step):
    """IEC iteration with fittings: step(Ci) -> (C, dict of factors). Ends when Ci/C >= .99."""
    o.hist = []
    for i in range(21):
        C, fac = step(Ci); o.hist.append(fac)
        if near(Ci/C, .99, 1e-8) or near(Ci, 1e40, 1e-6): raise SkipCase
        if Ci/C >= .99 or i == 20 or Ci >= 1e40: break
        Ci = C
    o.warn = i == 20 or Ci >= 1e40
    o.fac = fac
    return C
def laminar(o, C0, nu, Q, D1, d, FL, Fd, replace):
    Ci = 1.3*C0; o.lam = []
    for i in range(500):
        Re = rev(nu, Q, D1, FL, Fd, Ci)
        if near(Ci/d**2, .016*N18) or near(Re, 10): raise SkipCase
        FR = FRf(FL, Ci, d, Re, not Ci/d**2 > .016*N18)
        if near(C0/FR, Ci, 1e-8): raise SkipCase
        o.lam.append((Ci, Re, FR))
        if C0/FR < Ci: break
        if replace: C0 = Ci
        Ci *= 1.3
    o.Rev, o.FR = Re, FR
    return Ci
def sq(x):
    if not x > 1e-12: raise SkipCase
    return x**.5
def ref_l(rho, Psat, Pc, mu, P1, P2, Q, D1, D2, d, FL, Fd, ac, al, replace=False):
    o = Trace(); o.FP = o.FLP = o.FR = None; o.warn = False; o.fac = {}; o.hist = []
    P1, P2, Psat, Pc = P1/1e3, P2/1e3, Psat/1e3, Pc/1e3; Q *= 3600; nu = mu/rho; dP = P1 - P2
    o.FF = FF(Psat, Pc); lim = FL**2*(P1 - o.FF*Psat)
    if near(dP, lim) : raise SkipCase
    o.choked = o.choked_b = dP >= lim
    o.C0 = C = Q/N1*sq(rho/RHO0/min(dP, lim)) if o.choked and ac else Q/N1*sq(rho/RHO0/dP)
    o.mode = 'simple'
    if d is None: o.Rev = 1e5; o.C = C; return o
    D1, D2, d = D1*1e3, D2*1e3, d*1e3
    o.Rev = rev(nu, Q, D1, FL, Fd, C)
    if near(o.Rev, 1e4): raise SkipCase
    if (o.Rev > 1e4 or not al) and (D1 != d or D2 != d):
        o.mode = 'fittings'
        L, Lu = loss(d, D1, D2), (0. if d > D1 else loss(d, D1))
        def step(Ci):
            FP = 1/sq(1 + L/N2*(Ci/d**2)**2); FLP = FL/sq(1 + FL**2/N2*Lu*(Ci/d**2)**2)
            lim = (FLP/FP)**2*(P1 - o.FF*Psat)
            if near(dP, lim): raise SkipCase
            ch = dP >= lim
            C = Q/N1/FLP*sq(rho/RHO0/(P1 - o.FF*Psat)) if ch and ac else Q/N1/FP*sq(rho/RHO0/dP)
            return C, dict(FP=FP, FLP=FLP, choked=ch)
        C = piping(o, C, d, D1, D2, step)
        o.FP, o.FLP, o.choked = o.fac['FP'], o.fac['FLP'], o.fac['choked']
    elif o.Rev <= 1e4 and al:
        o.mode = 'laminar'; C = laminar(o, C, nu, Q, D1, d, FL, Fd, replace)
    o.C = C
    return o
def ref_g(T, MW, mu, gamma, Z, P1, P2, Q, D1, D2, d, FL, Fd, xT, ac, al, replace=False):
    o = Trace(); o.FP = o.xTP = o.FR = None; o.warn = False; o.fac = {}; o.hist = []
    P1, P2 = P1/1e3, P2/1e3; Q *= 3600
    nu = mu/(MW*1e-3*P1*1e3/(Z*RG*T)); Fg = gamma/1.4; x = (P1 - P2)/P1
    o.Y = max(1 - x/(3*Fg*xT), 2/3)
    if near(x, Fg*xT): raise SkipCase
    o.choked = o.choked_b = x >= Fg*xT
    o.C0 = C = Q/(N9*P1*o.Y)*sq(MW*T*Z/(Fg*xT if o.choked and ac else x))
    o.mode = 'simple'; o.Rev = None
    if d is None: o.C = C; return o
    D1, D2, d = D1*1e3, D2*1e3, d*1e3
    o.Rev = rev(nu, Q, D1, FL, Fd, C)
    if near(o.Rev, 1e4): raise SkipCase
    if (o.Rev > 1e4 or not al) and (D1 != d or D2 != d):
        o.mode = 'fittings'
        L, Lu = loss(d, D1, D2), loss(d, D1)
        def step(Ci):
            FP = 1/sq(1 + L/N2*(Ci/d**2)**2); q = 1 + xT*Lu/N5*(Ci/d**2)**2
            if q < 1e-12: raise SkipCase
            xTP = xT/FP**2/q
            if near(x, Fg*xTP): raise SkipCase
            ch = x >= Fg*xTP
            return Q/(N9*FP*P1*o.Y)*sq(MW*T*Z/(Fg*xTP if ch and ac else x)), dict(FP=FP, xTP=xTP, choked=ch)
        C = piping(o, C, d, D1, D2, step)
        o.FP, o.xTP, o.choked = o.fac['FP'], o.fac['xTP'], o.fac['choked']
    elif o.Rev <= 1e4 and al:
        o.mode = 'laminar'; C = laminar(o, C, nu, Q, D1, d, FL, Fd, replace)
    o.C = C
    return o

def pipes(d, h, a, b):
    if h == 'none': return {}
    if h == 'equal': return dict(d=d, D1=d, D2=d)
    if h == 'inlet': return dict(d=d, D1=d*a, D2=d)
    if h == 'outlet': return dict(d=d, D1=d, D2=d*b)
    return dict(d=d, D1=d*a, D2=d*b)
HOW = pick('none', 'equal', 'inlet', 'outlet', 'both', 'both')
PIPE = dict(d=lf(1e-3, .5), h=HOW, a=inear(uf(1, 3), [.95, 1.5, 2.]), b=inear(uf(1, 3), [.95, 1.5, 2.]))
LIQ = dict(rho=uf(500, 1500), pr=uf(1e-3, .3), Pc=lf(1e6, 3e7), mu=lf(1e-5, 10), P1=lf(2e5, 5e7), xp=uf(.01, .99), k=lf(1e-5, .1), FL=FLg, Fd=uf(.05, 1))
OPT = dict(ac=opt(pick(True, False), 3), al=opt(pick(True, False), 3))
def liq(rho, pr, Pc, mu, P1, xp, k, FL, Fd, d, h, a, b):
    Psat = min(P1, Pc)*pr; dP = (P1 - Psat)*xp     # k is the unchoked Kv/d2 (mm)
    return dict(rho=rho, Psat=Psat, Pc=Pc, mu=mu, P1=P1, P2=P1 - dP, Q=k*d*d*1e6*N1*sqrt(dP*1e-3*RHO0/rho)/3600, FL=FL, Fd=Fd, **pipes(d, h, a, b))
GAS = dict(T=uf(200, 900), MW=uf(2, 100), mu=lf(5e-6, 1e-2), gamma=uf(1.05, 1.67), Z=uf(.5, 1.1), P1=lf(2e5, 1e7), xp=uf(.005, .99), k=lf(1e-5, .1), FL=FLg, Fd=uf(.05, 1), xT=uf(.15, .85))
def gas(T, MW, mu, gamma, Z, P1, xp, k, FL, Fd, xT, d, h, a, b):
    return dict(T=T, MW=MW, mu=mu, gamma=gamma, Z=Z, P1=P1, P2=P1*(1 - xp), Q=k*d*d*1e6*N9*P1*1e-3*sqrt(xp/(MW*T*Z))/3600, FL=FL, Fd=Fd, xT=xT, **pipes(d, h, a, b))
def run(f, kw, ac, al):
    o = {}
    if ac is not None: o['allow_choked'] = ac
    if al is not None: o['allow_laminar'] = al
    brief = f(**kw, **o); full = f(full_output=True, **kw, **o)
    close(brief, full['Kv'], 1e-15, what='brief output vs detailed Kv')
    return brief, full
def refkw(kw, ac, al): return dict(dict(D1=None, D2=None, d=None), **kw, ac=ac is not False, al=al is not False)
def chk(got, want, what):
    if want is None: ensure(got is None, '%s: reported %r, but no such factor applies', what, got)
    else: close(got, want, 1e-9, what=what)
def common(ctx, o, brief, full, differ=False):
    ctx.label(o.mode, 'choked' if o.choked_b else 'unchoked', 'warn' if o.warn else '', 'iters>1' if len(o.hist) > 1 else '')
    ctx.nontrivial(o.mode != 'simple' or o.choked_b)
    close(brief, o.C, 1e-9, what='Kv (%s)' % o.mode)
    ensure(('warning' in full) == o.warn, 'convergence warning %r, expected %r', full.get('warning'), o.warn)
    if o.mode != 'fittings' or o.choked == o.choked_b: ensure(bool(full['choked']) == bool(o.choked), 'choked flag %r, expected %r', full['choked'], o.choked)
    Re = o.Rev if o.Rev is not None else 1e5
    chk(full['FR'], o.FR, 'FR'); chk(full['FP'], o.FP, 'FP') if not differ else None
@P.sub(rec(**LIQ, **PIPE, **OPT), n=2500)
def size_l(ctx, ac, al, **k):
    kw = liq(**k); o = ref_l(**refkw(kw, ac, al))
    brief, full = run(cv.size_control_valve_l, kw, ac, al)
    common(ctx, o, brief, full, differ=len(o.hist) > 1)   # reported FP/FLP after several iterations: recorded finding (sub reported_factors_l)
    close(full['FF'], o.FF, 1e-12, what='FF'); close(full['Rev'], o.Rev, 1e-9, what='Rev')
    if len(o.hist) <= 1: chk(full['FLP'], o.FLP, 'FLP')
    ensure(bool(full['laminar']) == ((o.lam[0] and rev(kw['mu']/kw['rho'], kw['Q']*3600, kw['D1']*1e3, kw['FL'], kw['Fd'], o.C0) if o.mode == 'laminar' else o.Rev) <= 1e4), 'laminar flag %r', full['laminar'])
    # forward flow equation with the factors of the final iteration, IEC eqs 1-5
    if o.mode == 'laminar':
        Q = brief*full['FR']*N1*sqrt(1e-3*(kw['P1'] - kw['P2'])*RHO0/kw['rho'])/3600
        if o.choked_b and ac is not False: Q = brief*full['FR']*N1*kw['FL']*sqrt(1e-3*(kw['P1'] - o.FF*kw['Psat'])*RHO0/kw['rho'])/3600
        ensure(Q >= kw['Q']*(1 - 1e-9), 'laminar Kv passes %g m3/s, less than the requested %g', Q, kw['Q'])
        if full['FR'] < 1 and len(o.lam) > 1: ensure(Q <= kw['Q']*1.3*max(1, o.lam[-1][2]/o.lam[-2][2])*(1 + 1e-9), 'laminar Kv passes %g m3/s for a requested %g', Q, kw['Q'])
    elif o.mode == 'simple':
        dPs = kw['P1'] - kw['P2']
        if ac is not False: dPs = min(dPs, kw['FL']**2*(kw['P1'] - o.FF*kw['Psat']))
        close(brief*N1*sqrt(1e-3*dPs*RHO0/kw['rho'])/3600, kw['Q'], 1e-9, what='flow passed by the returned Kv')
@P.sub(rec(**LIQ, **PIPE, ac=pick(True, False), multi=False), n=400)
def reported_factors_l(ctx, ac, multi, **k):
    k['h'] = 'both' if k['h'] in ('none', 'equal') else k['h']
    kw = liq(**k); o = ref_l(**refkw(kw, ac, False))
    if o.mode != 'fittings' or o.warn or (len(o.hist) > 1) != multi: raise SkipCase
    full = cv.size_control_valve_l(allow_choked=ac, allow_laminar=False, full_output=True, **kw)
    close(full['FP'], o.FP, 1e-9, what='reported FP'); close(full['FLP'], o.FLP, 1e-9, what='reported FLP')
    # forward equations 2 and 4 with the reported factors
    if o.choked and ac: Q = full['Kv']*N1*full['FLP']*sqrt(1e-3*(kw['P1'] - o.FF*kw['Psat'])*RHO0/kw['rho'])/3600
    else: Q = full['Kv']*N1*full['FP']*sqrt(1e-3*(kw['P1'] - kw['P2'])*RHO0/kw['rho'])/3600
    close(Q, kw['Q'], 1e-9, what='flow from the forward equation')
@P.sub(rec(**GAS, **PIPE, **OPT), n=2500)
def size_g(ctx, ac, al, **k):
    kw = gas(**k); o = ref_g(**refkw(kw, ac, al))
    if o.mode == 'laminar' and len(o.lam) > 1: raise SkipCase     # recorded finding, sub laminar_iteration_g
    brief, full = run(cv.size_control_valve_g, kw, ac, al)
    common(ctx, o, brief, full)
    close(full['Y'], o.Y, 1e-12, what='Y'); chk(full['Rev'], o.Rev, 'Rev'); chk(full['xTP'], o.xTP, 'xTP')
    if o.mode == 'laminar': ensure(full['laminar'] is True or full['laminar'] == True, 'laminar flag %r', full['laminar'])
    else: ensure(bool(full['laminar']) == (o.Rev is not None and o.Rev <= 1e4), 'laminar flag %r', full['laminar'])
    # forward: Q from eqs 6-17a with the reported factors
    Fg = kw['gamma']/1.4; x = 1 - kw['P2']/kw['P1']
    xt, FP = (full['xTP'], full['FP']) if o.mode == 'fittings' else (kw['xT'], 1.)
    xs = min(x, Fg*xt) if ac is not False else x
    Q = brief*(full['FR'] or 1.)*N9*FP*kw['P1']*1e-3*full['Y']*sqrt(xs/(kw['MW']*kw['T']*kw['Z']))/3600
    if o.mode == 'laminar': ensure(Q >= kw['Q']*(1 - 1e-9), 'laminar Kv passes %g, less than the requested %g', Q, kw['Q'])
    else: close(Q, kw['Q'], 1e-9, what='flow from the forward equation')
@P.sub(rec(**GAS, **PIPE, ac=pick(True, False), known=False), n=400)
def laminar_iteration_g(ctx, ac, known, **k):
    k['h'] = 'equal'; k['k'] = max(k['k'], .008); k['d'] = min(k['d'], 5e-3); k['mu'] = max(k['mu'], 1e-4)
    kw = gas(**k); a = dict(refkw(kw, ac, True)); o = ref_g(**a)
    if o.mode != 'laminar' or len(o.lam) < 2: raise SkipCase
    got = cv.size_control_valve_g(allow_choked=ac, **kw)
    if known: close(got, o.C, 1e-9, what='Kv (laminar, iterated)'); return
    try: close(got, o.C, 1e-9, what='Kv (laminar, iterated)')
    except Violation: close(got, ref_g(replace=True, **a).C, 1e-9, what='Kv (laminar, iterated)')    # recorded finding: C is replaced by Ci
@P.sub(rec(gasq=pick(True, False), **GAS, pr=uf(1e-3, .3), Pc=lf(1e6, 3e7), rho=uf(500, 1500), **PIPE, ac=True, differ=False), n=300)
def choked_flag_with_fittings(ctx, gasq, pr, Pc, rho, ac, differ, **k):
    k['h'] = 'both' if k['h'] in ('none', 'equal') else k['h']
    if gasq: kw = gas(**k); o = ref_g(**refkw(kw, ac, False)); f = cv.size_control_valve_g
    else:
        for n in ('T', 'MW', 'gamma', 'Z', 'xT'): k.pop(n)
        kw = liq(rho=rho, pr=pr, Pc=Pc, **k); o = ref_l(**refkw(kw, ac, False)); f = cv.size_control_valve_l
    if o.mode != 'fittings' or o.warn or (o.choked != o.choked_b) != differ: raise SkipCase
    ctx.label('choked' if o.choked else 'not')
    full = f(allow_choked=ac, allow_laminar=False, full_output=True, **kw)
    ensure(bool(full['choked']) == bool(o.choked), 'choked flag %r, the flow with fittings is choked: %r', full['choked'], o.choked)
@P.sub(rec(**LIQ, d=lf(1e-3, .5), miss=pick('d', 'D1', 'D2', 'dD1', 'D1D2', 'dD2')), n=60)
def incomplete_piping_raises(ctx, d, miss, **k):
    kw = liq(d=d, h='equal', a=1, b=1, **k)
    for m in {'d': ['d'], 'D1': ['D1'], 'D2': ['D2'], 'dD1': ['d', 'D1'], 'D1D2': ['D1', 'D2'], 'dD2': ['d', 'D2']}[miss]: kw.pop(m)
    raises(ValueError, cv.size_control_valve_l, **kw)
    raises(ValueError, cv.size_control_valve_g, T=300., MW=29., mu=1e-5, gamma=1.4, Z=1., P1=kw['P1'], P2=kw['P2'], Q=kw['Q'], **{m: d for m in ('d', 'D1', 'D2') if m in kw})
@P.sub(rec(**LIQ, **PIPE, xT=uf(.2, .8), s=lf(.1, 10)), n=300)
def turbulent_Kv_is_proportional_to_flow(ctx, xT, s, **k):
    """without piping data Kv scales with the flow, and a larger pressure drop never needs a larger valve"""
    k['h'] = 'none'; kw = liq(**k)
    a = cv.size_control_valve_l(**kw)
    close(cv.size_control_valve_l(**dict(kw, Q=kw['Q']*s)), a*s, 1e-12, what='Kv vs Q')
    ensure(cv.size_control_valve_l(**dict(kw, P2=kw['P2']*.9)) <= a*(1 + 1e-12), 'Kv rises with the pressure drop')
    g = dict(T=300., MW=29., mu=1e-5, gamma=1.4, Z=1., xT=xT, P1=kw['P1'], P2=kw['P2'], Q=kw['Q'])
    b = cv.size_control_valve_g(**g)
    close(cv.size_control_valve_g(**dict(g, Q=kw['Q']*s)), b*s, 1e-12, what='gas Kv vs Q')
    ensure(cv.size_control_valve_g(**dict(g, P2=kw['P2']*.9)) <= b*(1 + 1e-12), 'gas Kv rises with the pressure drop')

# ---------------------------------------------------------------- scales and characteristics
GAL, MIN, PSI = 231*.0254**3, 60., .45359237*9.80665/.0254**2
# Kv in m3/h at 1 bar, Cv in gpm at 1 psi, Av in m3/s at 1 Pa and 1 kg/m3; one reference water density
TOSI = {'Kv': 1/3600/(1e5/RHO0)**.5, 'Cv': GAL/MIN/(PSI/RHO0)**.5, 'Av': 1.}
SC = pick('Kv', 'Cv', 'Av')
@P.sub(rec(c=lf(1e-6, 1e6), a=SC, b=SC, q=SC), n=250)
def convert_flow_coefficient(ctx, c, a, b, q):
    ctx.nontrivial(a != b)
    v = cv.convert_flow_coefficient(c, a, b)
    close(v, c*TOSI[a]/TOSI[b], 5e-4, what='%s to %s' % (a, b))       # the library's Cv/Kv ratio is quoted to 4 digits
    close(cv.convert_flow_coefficient(v, b, a), c, 1e-12, what='round trip')
    close(cv.convert_flow_coefficient(cv.convert_flow_coefficient(c, a, q), q, b), v, 1e-12, what='via a third scale')
    raises(NotImplementedError, cv.convert_flow_coefficient, c, 'Qn', b); raises(NotImplementedError, cv.convert_flow_coefficient, c, a, 'Cg')
OPN = inear(uf(0, 1), [0., .5, 1.])
r('Cv_char_quick_opening', lambda opening: sp1(opening, T.opening_quick_tck), _atol=1e-13, opening=OPN)
r('Cv_char_equal_percentage', lambda opening: sp1(opening, T.opening_equal_tck), _atol=1e-13, opening=OPN)
r('Cv_char_linear', lambda opening: opening, _atol=1e-13, opening=OPN)
@P.sub(rec(a=OPN), n=80)
def characteristics_order(ctx, a):
    q, l, e = cv.Cv_char_quick_opening(a), cv.Cv_char_linear(a), cv.Cv_char_equal_percentage(a)
    ensure(e - 5e-3 <= l <= q + 5e-3, 'characteristic curves out of order at %g: %g %g %g', a, e, l, q)
    for v in (q, l, e): ensure(-5e-3 <= v <= 1 + 5e-3, 'opening %g gives Cv fraction %g', a, v)
