"""C27: two-phase frictional pressure drop correlations."""
from math import sqrt, log, log10, exp, pi, sin
import fluids
from fluids import two_phase
from vf.core import *
from .c09 import colebrook

P = Prop('C27', rule='Mass flux 1-8000 kg/m^2/s, quality (0,1) incl. near-limit values, liquid/vapor properties, 0.2 mm-1 m diameters, roughness present or absent, regime labels drawn so every branch is met. Non-trivial: every distinct state.',
         assumptions=['vapor is the lighter and less viscous phase (the domain of the correlations)',
                      'single-phase friction factors as decided by C09 (laminar below Re=2040, Colebrook above)'])
G0 = 9.80665
def ff(Re, e=0.):
    if abs(Re/2040 - 1) < 1e-9: raise SkipCase
    return 64/Re if Re < 2040 else colebrook(Re, e)

class S:
    """state with derived single-phase quantities (independent of the code under test)"""
    def __init__(s, G, x, rl, rg, ml, mg, D, e, L, sig=None):
        s.m, s.G, s.x, s.rl, s.rg, s.ml, s.mg, s.D, s.e, s.L, s.sig = G*pi/4*D*D, G, x, rl, rg, ml, mg, D, e, L, sig
        s.rh = 1/(x/rg + (1 - x)/rl)
    def dp(s, frac, rho, mu):
        Gp = s.G*frac; return ff(Gp*s.D/mu, s.e)*s.L/s.D*Gp*Gp/2/rho
    lo = property(lambda s: s.dp(1, s.rl, s.ml)); go = property(lambda s: s.dp(1, s.rg, s.mg))
    l = property(lambda s: s.dp(1 - s.x, s.rl, s.ml)); g = property(lambda s: s.dp(s.x, s.rg, s.mg))
    Relo = property(lambda s: s.G*s.D/s.ml); Rego = property(lambda s: s.G*s.D/s.mg)
    Rel = property(lambda s: s.G*(1 - s.x)*s.D/s.ml); Reg = property(lambda s: s.G*s.x*s.D/s.mg)
    Fr = property(lambda s: s.G**2/(G0*s.D*s.rh**2)); We = property(lambda s: s.G**2*s.D/s.sig/s.rh)
    Co = property(lambda s: sqrt(s.sig/(G0*(s.rl - s.rg)))/s.D)

def friedel(s):
    x = s.x
    H = (s.rl/s.rg)**.91*(s.mg/s.ml)**.19*(1 - s.mg/s.ml)**.7
    E = (1 - x)**2 + x*x*s.rl*ff(s.Rego, s.e)/(s.rg*ff(s.Relo, s.e))
    return s.lo*(E + 3.24*x**.78*(1 - x)**.224*H/(s.Fr**.0454*s.We**.035))
def gronnerud(s):
    F = s.G**2/(G0*s.D*s.rl**2); x = s.x
    f = 1. if F >= 1 else F**.3 + .0055*log(F)**2
    return s.lo*(1 + f*(x + 4*(x**1.8 - x**10*sqrt(f)))*((s.rl/s.rg)/(s.ml/s.mg)**.25 - 1))
def chis(s, B, n):
    g2 = s.go/s.lo; x = s.x
    return s.lo*(1 + (g2 - 1)*(B*(x*(1 - x))**((2 - n)/2) + x**(2 - n)))
def chisholm(s, rough=False):
    Gm = sqrt(s.go/s.lo); n = .25
    for b in (9.5, 28.):
        if abs(Gm/b - 1) < 1e-8: raise SkipCase
    if Gm < 9.5: B = 4.8 if s.G <= 500 else 2400/s.G if s.G < 1900 else 55/sqrt(s.G)
    elif Gm < 28: B = 520/(Gm*sqrt(s.G)) if s.G <= 600 else 21/Gm
    else: B = 15000/(Gm**2*sqrt(s.G))
    if rough:
        n = log(ff(s.Relo, s.e)/ff(s.Rego, s.e))/log(s.Rego/s.Relo)
        B *= (.5*(1 + (s.mg/s.ml)**2 + 10**(-600*s.e)))**((.25 - n)/.25)
    return chis(s, B, n)
def baroczy(s):
    Gm = sqrt(s.go/s.lo)
    for b in (9.5, 28.):
        if abs(Gm/b - 1) < 1e-8: raise SkipCase
    return chis(s, 55/sqrt(s.G) if Gm < 9.5 else 520/(Gm*sqrt(s.G)) if Gm < 28 else 15000/(Gm**2*sqrt(s.G)), .25)
def msh(s): return (s.lo + 2*(s.go - s.lo)*s.x)*(1 - s.x)**(1/3) + s.go*s.x**3
def lombardi(s): return .83*s.G**1.4*s.sig**.4*s.L/(s.D**1.2*s.rh**.866)
def theissing(s):
    if s.x == 0: return s.lo
    if s.x == 1: return s.go
    n1 = log(s.l/s.lo)/log(1 - s.x); n2 = log(s.g/s.go)/log(s.x); q = (s.g/s.l)**.1
    n = (n1 + n2*q)/(1 + q); e = 3 - 2*(2*sqrt(s.rl/s.rg)/(1 + s.rl/s.rg))**(.7/n)
    return (s.lo**(1/(n*e))*(1 - s.x)**(1/e) + s.go**(1/(n*e))*s.x**(1/e))**(n*e)
def jung(s):
    Xtt = ((1 - s.x)/s.x)**.9*sqrt(s.rg/s.rl)*(s.ml/s.mg)**.1
    return s.lo*12.82*Xtt**-1.47*(1 - s.x)**1.8
def tran(s): return s.lo*(1 + (4.3*s.go/s.lo - 1)*(s.Co*(s.x*(1 - s.x))**.875 + s.x**1.75))
def chen(s):
    Bo = G0*(s.rl - s.rg)*s.D**2/s.sig/4
    if abs(Bo/2.5 - 1) < 1e-9: raise SkipCase
    return friedel(s)*(.0333*s.Relo**.45/(s.Reg**.09*(1 + .4*exp(-Bo))) if Bo < 2.5 else s.We**.2/(2.5 + .06*Bo))
def bankoff(s):
    x, r = s.x, s.rg/s.rl
    gam = (.71 + 2.35*r)/(1 + (1 - x)/x*r)
    b = 1 - gam*(1 - r)
    if b <= 0: raise SkipCase
    return s.lo*(b**(3/7)*(1 + x*(1/r - 1))/(1 - x))**(7/4)
def xufang(s):
    Y2 = s.go/s.lo; x = s.x
    return s.lo*(Y2*x**3 + (1 - x**2.59)**.632*(1 + 2*x**1.17*(Y2 - 1) + .00775*x**-.475*s.Fr**.535*s.We**.188))
def yu(s): return s.l*(18.65*sqrt(s.rg/s.rl)*(1 - s.x)/s.x*s.Reg**.1/s.Rel**.5)**-1.9
def wang(s):
    X = sqrt(s.l/s.g)
    if s.G >= 200: p = 1 + 9.397*X**.62 + .564*X**2.45
    else: p = 1 + 4.566e-6*X**.128*s.Relo**.938*(s.rl/s.rg)**-2.15*(s.ml/s.mg)**5.1*X + X*X
    return s.g*p
def lm(s, C, l=None, g=None):
    l = s.l if l is None else l; g = s.g if g is None else g
    X = sqrt(l/g); return l*(1 + C(X)/X + 1/X**2)
def hwang(s): return lm(s, lambda X: .227*s.Relo**.452*X**-.32*s.Co**-.82)
ZHM = {'adiabatic vapor': .142, 'adiabatic gas': .674, 'flow boiling': .358}
def zhm(s, t='adiabatic vapor'): return lm(s, lambda X: 21*(1 - exp(-ZHM[t]/s.Co)))
def mishima(s): return lm(s, lambda X: 21*(1 - exp(-319*s.D)))
def kim(s):
    f = lambda Re: 64/Re if Re < 2000 else .316*Re**-.25 if Re < 20000 else .184*Re**-.2
    for R in (s.Rel, s.Reg):
        for b in (2000., 20000.):
            if abs(R/b - 1) < 1e-9: raise SkipCase
    d = lambda q, rho, Re: f(Re)*s.L/s.D*(s.G*q)**2/2/rho
    Su = s.rg*s.sig*s.D/s.mg**2; r = s.rl/s.rg
    C = {(0, 0): 3.5e-5*s.Relo**.44*Su**.5*r**.48, (0, 1): .0015*s.Relo**.59*Su**.19*r**.36,
         (1, 0): 8.7e-4*s.Relo**.17*Su**.5*r**.14, (1, 1): .39*s.Relo**.03*Su**.1*r**.35}[int(s.Rel >= 2000), int(s.Reg >= 2000)]
    return lm(s, lambda X: C, d(1 - s.x, s.rl, s.Rel), d(s.x, s.rg, s.Reg))
def lockhart(s, Rc=2000.):
    for R in (s.Rel, s.Reg):
        if abs(R/Rc - 1) < 1e-9: raise SkipCase
    f = lambda Re: 64/Re if Re < Rc else .184*Re**-.2
    d = lambda q, rho, Re: f(Re)*s.L/s.D*(s.G*q)**2/2/rho
    C = {(0, 0): 5, (0, 1): 12, (1, 0): 10, (1, 1): 20}[int(s.Rel >= Rc), int(s.Reg >= Rc)]
    return lm(s, lambda X: C, d(1 - s.x, s.rl, s.Rel), d(s.x, s.rg, s.Reg))

# name -> (function name, reference, extra kwargs, uses viscosities, sigma, roughness, rtol)
MODELS = {
 'Friedel': ('Friedel', friedel, {}, 1, 1, 1), 'Gronnerud': ('Gronnerud', gronnerud, {}, 1, 0, 1), 'Chisholm': ('Chisholm', chisholm, {}, 1, 0, 1),
 'Chisholm rough': ('Chisholm', lambda s: chisholm(s, True), {'rough_correction': True}, 1, 0, 1), 'Baroczy_Chisholm': ('Baroczy_Chisholm', baroczy, {}, 1, 0, 1),
 'Muller_Steinhagen_Heck': ('Muller_Steinhagen_Heck', msh, {}, 1, 0, 1), 'Lombardi_Pedrocchi': ('Lombardi_Pedrocchi', lombardi, {}, 0, 1, 0),
 'Theissing': ('Theissing', theissing, {}, 1, 0, 1), 'Jung_Radermacher': ('Jung_Radermacher', jung, {}, 1, 0, 1), 'Tran': ('Tran', tran, {}, 1, 1, 1),
 'Chen_Friedel': ('Chen_Friedel', chen, {}, 1, 1, 1), 'Bankoff': ('Bankoff', bankoff, {}, 1, 0, 1), 'Xu_Fang': ('Xu_Fang', xufang, {}, 1, 1, 1),
 'Yu_France': ('Yu_France', yu, {}, 1, 0, 1), 'Wang_Chiang_Lu': ('Wang_Chiang_Lu', wang, {}, 1, 0, 1), 'Hwang_Kim': ('Hwang_Kim', hwang, {}, 1, 1, 1),
 'Zhang_Hibiki_Mishima': ('Zhang_Hibiki_Mishima', zhm, {}, 1, 1, 1),
 'Zhang_Hibiki_Mishima adiabatic gas': ('Zhang_Hibiki_Mishima', lambda s: zhm(s, 'adiabatic gas'), {'flowtype': 'adiabatic gas'}, 1, 1, 1),
 'Zhang_Hibiki_Mishima flow boiling': ('Zhang_Hibiki_Mishima', lambda s: zhm(s, 'flow boiling'), {'flowtype': 'flow boiling'}, 1, 1, 1),
 'Mishima_Hibiki': ('Mishima_Hibiki', mishima, {}, 1, 1, 1), 'Kim_Mudawar': ('Kim_Mudawar', kim, {}, 1, 1, 0), 'Lockhart_Martinelli': ('Lockhart_Martinelli', lockhart, {}, 1, 0, 0)}

STATE = dict(G=lf(1, 8000, (200., 500., 600., 1900.)), x=inear(uf(.001, .999), [1e-3, .999, .01, .1, .9], 6), rl=lf(300, 2000), rr=lf(3, 5000), ml=lf(5e-5, .05), mr=lf(1.5, 500),
             D=lf(2e-4, 1.), e=inear(lf(1e-6, .05), [0., None], 3), L=opt(lf(.01, 1e3)), sig=lf(1e-3, .08))
def build(G, x, rl, rr, ml, mr, D, e, L, sig):
    s = S(G, x, rl, rl/rr, ml, ml/mr, D, e or 0., L or 1., sig)
    return s
def call(name, s, e, L, dispatch=False):
    fn, ref, kw, mu, sg, ro = MODELS[name]
    a = dict(m=s.m, x=s.x, rhol=s.rl, rhog=s.rg, D=s.D)
    if mu or dispatch: a.update(mul=s.ml, mug=s.mg)
    if sg or dispatch: a['sigma'] = s.sig
    if L is not None: a['L'] = L
    if e is not None and (ro or dispatch): a['roughness'] = e*s.D
    if dispatch: return two_phase.two_phase_dP(Method=name, **a)
    return getattr(two_phase, fn)(**a, **kw)
def make(name):
    def fn(ctx, **k):
        s = build(**k)
        # the mass flow is what the code sees: rebuild the flux it computes
        s.G = s.m/(pi/4*s.D*s.D)
        for b in (200., 500., 600., 1900.):
            if abs(s.G/b - 1) < 1e-9: raise SkipCase
        if abs(s.G**2/(G0*s.D*s.rl**2) - 1) < 1e-9: raise SkipCase
        want = MODELS[name][1](s)
        got = call(name, s, k['e'], k['L'])
        close(got, want, 1e-7 if name == 'Theissing' else 1e-8, 0, name)
        close(call(name, s, k['e'], k['L'], True), got, 1e-13, 0, 'two_phase_dP(Method=%r)' % name)
        close(call(name, s, k['e'], 3.*(k['L'] or 1.)), 3*got, 1e-10, 0, name + ': proportional to length')
        ctx.label(('lam' if s.Rel < 2000 else 'tur') + '/' + ('lam' if s.Reg < 2000 else 'tur'))
        if name in ('Chisholm', 'Baroczy_Chisholm', 'Chisholm rough'):
            Gm = sqrt(s.go/s.lo); ctx.label('Gamma<9.5' if Gm < 9.5 else 'Gamma<28' if Gm < 28 else 'Gamma>28')
    P.sub(rec(**STATE), n=350, name='eq_' + name.replace(' ', '_'))(fn)
for name in MODELS: make(name)

def zw(m, x, rhol, mul, P, Pc, D, roughness=0., L=1.):
    G = m/(pi/4*D*D); Pr = P/Pc
    if P is None: Pr = .5
    return ff(G*D/mul, roughness/D)*L/D*G*G/2/rhol*((1 - x)**2 + 2.87*x*x/Pr + 1.68*x**.8*(1 - x)**.25*Pr**-1.64)
@P.sub(rec(m=lf(1e-4, 100), x=uf(0, 1, (0., 1.)), rhol=lf(300, 2000), mul=lf(5e-5, .05), P=lf(1e4, 3e6), Pc=lf(3e6, 2e7), D=lf(2e-4, 1.), e=opt(lf(1e-6, .05)), L=opt(lf(.01, 1e3))), n=300)
def Zhang_Webb(ctx, m, x, rhol, mul, P, Pc, D, e, L):
    k = {}
    if e is not None: k['roughness'] = e*D
    if L is not None: k['L'] = L
    want = zw(m, x, rhol, mul, P, Pc, D, **k)
    close(two_phase.Zhang_Webb(m=m, x=x, rhol=rhol, mul=mul, P=P, Pc=Pc, D=D, **k), want, 1e-8, 0, 'Zhang_Webb')
    close(two_phase.two_phase_dP(m=m, x=x, rhol=rhol, mul=mul, P=P, Pc=Pc, D=D, Method='Zhang_Webb', **k), want, 1e-8, 0, 'two_phase_dP Zhang_Webb')

@P.sub(rec(Rc=lf(500, 5000), **STATE), n=300)
def Lockhart_Martinelli_Re_c(ctx, Rc, **k):
    s = build(**k); s.G = s.m/(pi/4*s.D*s.D)
    kw = {} if k['L'] is None else {'L': k['L']}
    close(two_phase.Lockhart_Martinelli(m=s.m, x=s.x, rhol=s.rl, rhog=s.rg, mul=s.ml, mug=s.mg, D=s.D, Re_c=Rc, **kw), lockhart(s, Rc), 1e-9, 0, 'Lockhart_Martinelli(Re_c)')

@P.sub(rec(**STATE), n=400)
def single_phase_limits(ctx, **k):
    s = build(**k); s.G = s.m/(pi/4*s.D*s.D)
    F = lambda name, x: (setattr(s, 'x', x), call(name, s, k['e'], k['L']))[1]
    lo, go = s.lo, s.go
    for n in ('Friedel', 'Gronnerud', 'Chisholm', 'Baroczy_Chisholm', 'Muller_Steinhagen_Heck', 'Theissing', 'Tran', 'Chisholm rough'):
        if n == 'Chisholm rough' and abs(s.Relo/s.Rego - 1) < 1e-3: continue
        close(F(n, 0.0), lo, 1e-8, 0, n + ' at x=0 is the liquid-only drop')
    for n in ('Friedel', 'Muller_Steinhagen_Heck', 'Theissing', 'Chisholm', 'Baroczy_Chisholm', 'Xu_Fang'):
        close(F(n, 1.0), go, 1e-8, 0, n + ' at x=1 is the gas-only drop')
    f = lambda Re: 64/Re if Re < 2000 else .184*Re**-.2
    g = G0
    if abs(s.Rego/2000 - 1) > 1e-9 and abs(s.Relo/2000 - 1) > 1e-9:
        close(F('Lockhart_Martinelli', 1.), f(s.Rego)*s.L/s.D*s.G**2/2/s.rg, 1e-8, 0, 'Lockhart_Martinelli all vapor')
        close(F('Lockhart_Martinelli', 1e-31), f(s.Relo)*s.L/s.D*s.G**2/2/s.rl, 1e-8, 0, 'Lockhart_Martinelli all liquid')

@P.sub(rec(Re=lf(1, 1e7, (2000., 20000.))), n=200)
def friction_factor_Kim_Mudawar(ctx, Re):
    want = 64/Re if Re < 2000 else .316*Re**-.25 if Re < 20000 else .184*Re**-.2
    close(two_phase.friction_factor_Kim_Mudawar(Re), want, 1e-12, 0, 'friction_factor_Kim_Mudawar')

@P.sub(rec(t=pick(['adiabatic', 'flow Boiling', '', 'gas']), **STATE), n=40)
def bad_flowtype(ctx, t, **k):
    s = build(**k)
    raises(ValueError, two_phase.Zhang_Hibiki_Mishima, m=s.m, x=s.x, rhol=s.rl, rhog=s.rg, mul=s.ml, mug=s.mg, sigma=s.sig, D=s.D, flowtype=t)
