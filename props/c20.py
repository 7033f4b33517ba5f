"""C20: discharge coefficients, expansibility, diameter ratios, permanent pressure loss of flow meters."""
from math import sqrt, log10, log, pi, exp, acos, sin
import numpy as np
import fluids
from fluids import flow_meter as fm
from vf.core import *
from vf.refs import reffer
from vf.tables import *

P = Prop('C20', rule='Bores 10 mm to 1 m, diameter ratios 0.05 to 0.95, Re 1 to 1e9, pressure ratios down to 0.2, isentropic exponents 1 to 2 (exactly 1 included), every tapping and subtype; switch points of the standards drawn explicitly. Non-trivial: every distinct input (raising cases are labelled).',
         assumptions=['venturi-tube loss curves and Hollingshead tables are the published data as copied from the pinned tree into props/data/flow_meter.json'])
r = reffer(P, _n=200, _rtol=1e-10)
T = load('flow_meter')
G = 9.80665
INCH = .0254
def near(x, k, t=1e-9): return abs(x/k - 1) < t
D_ = inear(lf(.012, 1.), [.07112, .0711, .0712, .1, .0999, .1001, .05, .0584, .05839])
B_ = inear(uf(.05, .95), [.2, .75, .1, .6, .5])
Re_ = inear(lf(1., 1e9), [1e4, 1e5, 1e6, 3700., 3699., 3701., 1e8])
geo = rec(D=D_, b=B_).map(lambda c: dict(D=c['D'], Do=c['D']*c['b']))
def flow(**k):
    return rec(D=D_, b=B_, Re=Re_, rho=lf(.5, 1100.), mu=lf(1e-6, 1e-1), **k).map(
        lambda c: {**{q: v for q, v in c.items() if q not in ('b', 'Re')}, 'Do': c['D']*c['b'], 'm': c['Re']*pi/4*c['D']*c['mu']})
def Rey(D, m, mu): return 4*m/(pi*D*mu)
# --- discharge coefficients
def RHG(D, Do, rho, mu, m, taps=None):
    Re, b = Rey(D, m, mu), Do/D
    t = taps or 'corner'
    if t == 'corner': L1 = L2 = 0.
    elif t == 'flange': L1 = L2 = INCH/D
    elif t in ('D', 'D/2', 'D and D/2'): L1, L2 = 1., .47
    else: return ValueError
    A, M2 = (19000*b/Re)**.8, 2*L2/(1 - b)
    C = .5961 + .0261*b**2 - .216*b**8 + .000521*(1e6*b/Re)**.7 + (.0188 + .0063*A)*b**3.5*max((1e6/Re)**.3, 22.7 - 4700*Re/1e6)
    C += (.043 + .080*exp(-10*L1) - .123*exp(-7*L1))*(1 - .11*A)*b**4/(1 - b**4)
    C -= .031*(M2 - .8*M2**1.1)*b**1.3*(1 + 8*max(log10(3700/Re), 0.))
    return C + .011*(.75 - b)*max(2.8 - D/INCH, 0.)
TAPS = ('corner', 'flange', 'D', 'D/2', 'D and D/2')
r('C_Reader_Harris_Gallagher', RHG, _n=1000, _rtol=1e-9, _atol=1e-11, _label=lambda **c: str(c.get('taps')), _strategy=flow(taps=opt(inear(pick(TAPS), ['pipe', 'Corner'], 12), 6)))
def Miller_C(D, Do, rho, mu, m, subtype=None, taps=None, tap_position=None):
    Re, b, Dmm = Rey(D, m, mu), Do/D, D*1000
    s = subtype or 'orifice'; t = taps or 'corner'; pos = tap_position or '180 degree'
    if s.startswith('Miller ') and s != 'Miller orifice': s = s[7:]
    g = b**4/(1 - b**4)
    if s in ('orifice', 'Miller orifice'):
        base = .5959 + .0312*b**2.1 - .184*b**8
        if t == 'corner': C = base
        elif t == 'flange':
            if near(Dmm, 58.4, 1e-6): raise SkipCase
            C = base + (2.286*g/Dmm if Dmm >= 58.4 else .039*g) - .856*b**3/Dmm
        elif t == 'D and D/2': C = base + .039*g - .01584
        elif t == 'pipe': C = .5959 + .461*b**2.1 + .48*b**8 + .039*g
        else: return ValueError
        return C + 91.706*b**2.5/Re**.75
    big = D >= .1
    if near(D, .1, 1e-12) and D != .1: raise SkipCase
    if s == 'eccentric orifice':
        if pos not in ('180 degree', '90 degree') or t not in ('flange', 'vena contracta'): return ValueError
        p = {('flange', '180 degree', 0): ((7.3, -15.7, 170.8, -399.7, 332.2), (.5917, .3061, .3406, -.1019, -.2715)),
             ('flange', '180 degree', 1): ((-139.7, 1328.8, -4228.2, 5691.9, -2710.4), (.6016, .3312, -1.5581, .6510, -.7308)),
             ('flange', '90 degree', 0): ((69.1, -469.4, 1245.6, -1287.5, 486.2), (.5866, .3917, .7586, -.2273, -.3343)),
             ('flange', '90 degree', 1): ((-103.2, 898.3, -2557.3, 2977.0, -1131.3), (.6037, .1598, -.2918, .0244, -.0790)),
             ('vena contracta', '180 degree', 0): ((23.3, -207.0, 821.5, -1388.6, 900.3), (.5925, .3380, .4016, -.1046, -.3212)),
             ('vena contracta', '180 degree', 1): ((55.7, -471.4, 1721.8, -2722.6, 1569.4), (.5922, .3932, .3412, -.0569, -.4628)),
             ('vena contracta', '90 degree', 0): ((-69.3, 556.9, -1332.2, 1303.7, -394.8), (.5875, .3813, .6898, -.1963, -.3366)),
             ('vena contracta', '90 degree', 1): ((52.8, -434.2, 1571.2, -2460.9, 1420.2), (.5949, .4078, .0547, .0955, -.5608))}[t, pos, int(big)]
        return p[1][0] + p[1][1]*b**2.1 + p[1][2]*b**8 + p[1][3]*g + p[1][4]*b**3 + sum(k*b**i for i, k in enumerate(p[0]))/Re**.75
    if s == 'segmental orifice':
        if t not in ('flange', 'vena contracta'): return ValueError
        c = (.6276, .0828, .2739, -.0934, -.1132) if big else (.6284, .1462, -.8464, .2603, -.2886) if t == 'flange' else (.6261, .1851, -.2879, .1170, -.2845)
        return c[0] + c[1]*b**2.1 + c[2]*b**8 + c[3]*g + c[4]*b**3
    if s == 'conical orifice':
        if near(Re, 250*b, 1e-6) or near(Re, 500*b, 1e-6): raise SkipCase
        return .734 if 250*b < Re < 500*b else .730
    if s == 'quarter circle orifice': return .7746 - .1334*b**2.1 + 1.4098*b**8 + .0675*g + .3865*b**3
    return ValueError
SUB = ['orifice', 'eccentric orifice', 'segmental orifice', 'conical orifice', 'quarter circle orifice']
SUBS = SUB + ['Miller ' + s for s in SUB]
r('C_Miller_1996', Miller_C, _n=2500, _rtol=1e-9, _atol=1e-11, _label=lambda **c: '%s/%s' % (c.get('subtype', 'default').replace('Miller ', ''), c.get('taps')),
  _strategy=flow(subtype=opt(inear(pick(SUBS), ['oriface'], 20), 8), taps=opt(inear(pick('corner', 'flange', 'D and D/2', 'pipe', 'vena contracta'), ['x'], 20), 10), tap_position=opt(inear(pick('180 degree', '90 degree'), ['45 degree'], 12), 3)))
r('C_Miller_1996', Miller_C, _n=1000, _name='Miller_tapped', _rtol=1e-9, _atol=1e-11, _label=lambda **c: '%s/%s/%s/%d' % (c['subtype'].replace('Miller ', '')[:3], c['taps'][:3], c['tap_position'][:3], c['D'] >= .1),
  _strategy=flow(subtype=pick('eccentric orifice', 'eccentric orifice', 'Miller eccentric orifice', 'segmental orifice', 'Miller segmental orifice'), taps=pick('flange', 'vena contracta'), tap_position=pick('180 degree', '90 degree')))
@P.sub(flow().map(lambda c: dict(c, Re=None)), n=100)
def miller_conical_band(ctx, D, Do, rho, mu, m, Re):
    """Conical orifice: 0.734 between 250 beta and 500 beta, both sides of each limit"""
    for f, w in ((249., .730), (251., .734), (400., .734), (499., .734), (501., .730)):
        m = f*Do/D*pi/4*D*mu
        close(fm.C_Miller_1996(D=D, Do=Do, rho=rho, mu=mu, m=m, subtype='conical orifice'), w, 1e-12, what='Re = %g beta' % f)
r('C_eccentric_orifice_ISO_15377_1998', lambda D, Do: .9355 - 1.6889*(Do/D) + 3.0428*(Do/D)**2 - 1.7989*(Do/D)**3, _strategy=geo)
r('C_quarter_circle_orifice_ISO_15377_1998', lambda D, Do: .73823 + .3309*(Do/D) - 1.16158*(Do/D)**2 + 1.5084*(Do/D)**3, _strategy=geo)
r('C_long_radius_nozzle', lambda D, Do, rho, mu, m: .9965 - .00653*sqrt(Do/D)*sqrt(1e6/Rey(D, m, mu)), _atol=1e-11, _strategy=flow())
r('C_ISA_1932_nozzle', lambda D, Do, rho, mu, m: .99 - .2262*(Do/D)**4.1 - (.00175*(Do/D)**2 - .0033*(Do/D)**4.15)*(1e6/Rey(D, m, mu))**1.15, _rtol=1e-9, _atol=1e-8, _strategy=flow())
r('C_venturi_nozzle', lambda D, Do: .9858 - .196*(Do/D)**4.5, _strategy=geo)
# --- cone and wedge
H_ = inear(uf(.02, .98), [.5, .2, .6])
wgeo = rec(D=inear(D_, [.7*INCH, .7*INCH*.999, .7*INCH*1.001, 1.4*INCH, 1.4*INCH*1.001, 1.4*INCH*.999]), b=H_).map(lambda c: dict(D=c['D'], H=c['D']*c['b']))
cgeo = rec(D=D_, b=uf(.05, .98)).map(lambda c: dict(D=c['D'], Dc=c['D']*c['b']))
def wbeta(D, H):
    """area of the open segment below the wedge over the pipe area"""
    th = 2*acos(1 - 2*H/D)
    return sqrt((th - sin(th))/(2*pi))
def cbeta(D, Dc): return sqrt(1 - (Dc/D)**2)
r('diameter_ratio_cone_meter', cbeta, _strategy=cgeo)
r('diameter_ratio_wedge_meter', wbeta, _rtol=1e-9, _strategy=wgeo)
def CWM(D, H):
    b2 = wbeta(D, H)**2
    if near(D, .7*INCH) or near(D, 1.4*INCH): raise SkipCase
    k, c = (.7883, .107) if D < .7*INCH else (.6143, .718) if D < 1.4*INCH else (.5433, .2453)
    return k + c*(1 - b2)
r('C_wedge_meter_Miller', CWM, _rtol=1e-9, _strategy=wgeo)
r('C_wedge_meter_ISO_5167_6_2017', lambda D, H: .77 - .09*wbeta(D, H), _rtol=1e-9, _strategy=wgeo)
# --- expansibility
PR = inear(uf(.2, .99999), [.75, .9, .999])
K_ = inear(uf(1.02, 2.), [1., 1.4, 1.3])
def pres(g, *ks, **k):
    return rec(g=g, P1=lf(1e4, 1e8), x=PR, **k).map(lambda c: {**c['g'], 'P1': c['P1'], 'P2': c['P1']*c['x'], **{q: c[q] for q in k}})
r('orifice_expansibility', lambda D, Do, P1, P2, k: 1 - (.351 + .256*(Do/D)**4 + .93*(Do/D)**8)*(1 - (P2/P1)**(1/k)), _strategy=pres(geo, k=K_))
r('orifice_expansibility_1989', lambda D, Do, P1, P2, k: 1 - (.41 + .35*(Do/D)**4)*(P1 - P2)/(k*P1), _strategy=pres(geo, k=K_))
def noz(D, Do, P1, P2, k, beta=None):
    b, t = beta or Do/D, P2/P1
    if k == 1: t1 = -t**2*log(t)/(1 - t)
    else: t1 = k*t**(2/k)/(k - 1)*(1 - t**((k - 1)/k))/(1 - t)
    return sqrt(t1*(1 - b**4)/(1 - b**4*t**(2/k)))
r('nozzle_expansibility', noz, _n=500, _rtol=1e-9, _label=lambda **c: 'k=1' if c['k'] == 1 else '', _strategy=pres(geo, k=K_, beta=opt(uf(.1, .9))))
@P.sub(rec(g=geo, P1=lf(1e4, 1e8), x=uf(.5, .999), beta=opt(uf(.1, .9))), n=150)
def nozzle_isothermal_limit(ctx, g, P1, x, beta):
    """k = 1 is the limit of the general expression, with the beta argument respected; no pressure drop gives 1 for every k"""
    kw = dict(P1=P1, P2=P1*x, **g)
    if beta is not None: kw['beta'] = beta
    close(fm.nozzle_expansibility(k=1., **kw), fm.nozzle_expansibility(k=1. + 1e-6, **kw), 3e-6, what='k -> 1')
    kw['P2'] = P1
    for k in (1., 1.4): close(fm.nozzle_expansibility(k=k, **kw), 1., 1e-12, what='no pressure drop, k=%g' % k)
r('cone_meter_expansibility_Stewart', lambda D, Dc, P1, P2, k: 1 - (.649 + .696*cbeta(D, Dc)**4)*(P1 - P2)/(k*P1), _strategy=pres(cgeo, k=K_))
EXP = dict(orifice=lambda D, b, P1, P2, k: fm.orifice_expansibility(D, D*b, P1, P2, k), orifice_1989=lambda D, b, P1, P2, k: fm.orifice_expansibility_1989(D, D*b, P1, P2, k),
           nozzle=lambda D, b, P1, P2, k: fm.nozzle_expansibility(D, D*b, P1, P2, k), cone=lambda D, b, P1, P2, k: fm.cone_meter_expansibility_Stewart(D, D*b, P1, P2, k))
@P.sub(rec(which=pick(list(EXP)), D=D_, b=uf(.2, .75), P1=lf(1e4, 1e8), x=uf(.75, .999), dx=uf(1e-3, .2), k=K_), n=300)
def expansibility_limits(ctx, which, D, b, P1, x, dx, k):
    """0 < eps < 1, tending to one (to first order) as dP vanishes, falling as dP grows"""
    f = EXP[which]; e = f(D, b, P1, P1*x, k)
    ensure(0 < e < 1, '%s expansibility %r', which, e)
    ensure(f(D, b, P1, P1*x*(1 - dx), k) < e, '%s expansibility does not fall with the pressure drop', which)
    y = 1e-5
    ensure(0 <= 1 - f(D, b, P1, P1*(1 - y), k) < 3*y, '%s expansibility does not tend to 1', which)
    ctx.label(which)
# --- K <-> C, approach factors, permanent losses
C_ = uf(.3, .99)
def KC(D, Do, C): b = Do/D; return (sqrt(1 - b**4*(1 - C*C))/(C*b*b) - 1)**2
gC = rec(g=geo, C=C_).map(lambda c: {**c['g'], 'C': c['C']})
r('discharge_coefficient_to_K', KC, _rtol=1e-8, _strategy=gC)
@P.sub(gC, n=200)
def K_round_trip(ctx, D, Do, C):
    K = fm.discharge_coefficient_to_K(D=D, Do=Do, C=C)
    close(fm.K_to_discharge_coefficient(D=D, Do=Do, K=K), C, 1e-9*max(1, 1/sqrt(K)), what='C -> K -> C')
@P.sub(rec(g=geo, K=lf(1e-3, 1e4)), n=200)
def C_round_trip(ctx, g, K):
    C = fm.K_to_discharge_coefficient(K=K, **g); finite(C)
    close(fm.discharge_coefficient_to_K(C=C, **g), K, 1e-8*max(1, 1/K), what='K -> C -> K')
@P.sub(rec(g=geo, C=C_, P1=lf(1e4, 1e8), x=PR, rho=lf(.5, 1e3)), n=200)
def loss_is_K_velocity_head(ctx, g, C, P1, x, rho):
    """the permanent loss is K rho v^2/2 for the (incompressible) flow that produces the measured dP, and lies between 0 and dP"""
    D, Do, P2 = g['D'], g['Do'], P1*x
    m = fm.flow_meter_discharge(D=D, Do=Do, P1=P1, P2=P2, rho=rho, C=C)
    v = m/rho/(pi/4*D*D)
    dP = fm.dP_orifice(D=D, Do=Do, P1=P1, P2=P2, C=C)
    ensure(0 <= dP <= (P1 - P2)*(1 + 1e-12), 'permanent loss %r of measured %r', dP, P1 - P2)
    K = fm.discharge_coefficient_to_K(D=D, Do=Do, C=C)
    if K > 1e-3: close(K*rho*v*v/2, dP, 1e-7/sqrt(min(K, 1)), what='K rho v^2/2')
r('velocity_of_approach_factor', lambda D, Do: (1 - (Do/D)**4)**-.5, _strategy=geo)
r('flow_coefficient', lambda D, Do, C: C*(1 - (Do/D)**4)**-.5, _strategy=gC)
def dPo(D, Do, P1, P2, C):
    b = Do/D; s = sqrt(1 - b**4*(1 - C*C))
    return (s - C*b*b)/(s + C*b*b)*(P1 - P2)
r('dP_orifice', dPo, _strategy=pres(geo, C=C_))
def dPv(D, Do, P1, P2):
    b = Do/D
    hi, lo = lin(b, T.venturi_tube_betas, T.venturi_tube_dP_high), lin(b, T.venturi_tube_betas, T.venturi_tube_dP_low)
    return lin(D, [.065, .5], [hi, lo])*(P1 - P2)
r('dP_venturi_tube', dPv, _n=400, _strategy=pres(rec(D=inear(lf(.02, 1.), [.065, .5, .0649, .501]), b=inear(uf(.2, .8), T.venturi_tube_betas)).map(lambda c: dict(D=c['D'], Do=c['D']*c['b']))))
r('dP_cone_meter', lambda D, Dc, P1, P2: (1.09 - .813*cbeta(D, Dc))*(P1 - P2), _strategy=pres(cgeo))
r('dP_wedge_meter', lambda D, H, P1, P2: (1.09 - .79*wbeta(D, H))*(P1 - P2), _strategy=pres(wgeo))
@P.sub(rec(D=D_, b=uf(.15, .93), P1=lf(1e4, 1e8), x=PR, which=pick('cone', 'wedge', 'venturi')), n=200)
def loss_bounds(ctx, D, b, P1, x, which):
    """0 <= permanent loss <= measured drop over the published diameter ratios"""
    P2 = P1*x
    d = (fm.dP_cone_meter(D, D*b, P1, P2) if which == 'cone' else fm.dP_wedge_meter(D, D*b, P1, P2) if which == 'wedge' else fm.dP_venturi_tube(D, D*b, P1, P2))
    ensure(0 <= d <= P1 - P2, '%s meter permanent loss %r of measured %r', which, d, P1 - P2)
    ctx.label(which)
# --- wet gas
wet = rec(D=lf(.05, .5), b=uf(.4, .75), Fr=lf(.3, 20.), X=inear(lf(1e-4, .3), [.016, .0159, .0161]), rhol=uf(500, 1100), rr=uf(.02, .15), H=opt(pick(1., 1.35, .79)))
def wetc(c, full=False):
    D, rhol, rhog = c['D'], c['rhol'], c['rhol']*c['rr']
    V = c['Fr']*sqrt(G*D*(rhol - rhog)/rhog)
    mg = V*rhog*pi/4*D*D; ml = c['X']*mg/sqrt(rhog/rhol)
    o = dict(mg=mg, ml=ml, rhog=rhog, rhol=rhol, D=D, Do=D*c['b'], H=c['H'])
    return o
def Frg(mg, rhog, rhol, D): return 4*mg/(rhog*pi*D*D*sqrt(G*D))*sqrt(rhog/(rhol - rhog))
def Cwet(mg, ml, rhog, rhol, D, Do, H=1.):
    X = ml/mg*sqrt(rhog/rhol)
    return 1 - .0463*exp(-.05*Frg(mg, rhog, rhol, D)/(Do/D)**2.5)*min(1., sqrt(X/.016))
r('flow_meter.C_Reader_Harris_Gallagher_wet_venturi_tube', Cwet, _n=300, _rtol=1e-9, _strategy=wet.map(wetc))
def dPwet(D, Do, P1, P2, ml, mg, rhol, rhog, H=1.):
    X, F = ml/mg*sqrt(rhog/rhol), Frg(mg, rhog, rhol, D)
    Ym = .61*exp(-11*rhog/rhol - .045*F/H)
    return (P1 - P2)*(Ym*(1 - exp(-35*X**.75*exp(-.28*F/H))) + .0896 + .48*(Do/D)**9)
r('flow_meter.dP_Reader_Harris_Gallagher_wet_venturi_tube', dPwet, _n=300, _rtol=1e-9, _strategy=rec(w=wet.map(wetc), P1=lf(1e5, 1e7), x=PR).map(lambda c: {**c['w'], 'P1': c['P1'], 'P2': c['P1']*c['x']}))
# --- beta and permanent loss by meter type
SIMPLE = ['ISO 5167 orifice', 'ISO 15377 eccentric orifice', 'ISO 15377 conical orifice', 'ISO 15377 quarter-circle orifice', 'Miller orifice', 'Miller eccentric orifice', 'Miller segmental orifice',
          'Miller conical orifice', 'Miller quarter circle orifice', 'orifice', 'eccentric orifice', 'conical orifice', 'segmental orifice', 'quarter circle orifice', 'Hollingshead orifice']
NOZ = ['long radius nozzle', 'ISA 1932 nozzle']
VEN = ['as cast convergent venturi tube', 'machined convergent venturi tube', 'rough welded convergent venturi tube', 'Hollingshead venturi smooth', 'Hollingshead venturi sharp']
CONE, WEDGE = ['cone meter', 'Hollingshead v cone'], ['wedge meter', 'Hollingshead wedge']
ALL = SIMPLE + NOZ + VEN + CONE + WEDGE + ['venturi nozzle']
def dbeta(D, D2, meter_type):
    if meter_type in CONE: return cbeta(D, D2)
    if meter_type in WEDGE: return wbeta(D, D2)
    if meter_type in ALL or meter_type == 'unspecified meter': return D2/D
    return ValueError
r('differential_pressure_meter_beta', dbeta, _n=300, _rtol=1e-9, _strategy=rec(D=D_, b=uf(.05, .95), meter_type=inear(pick(ALL + ['unspecified meter']), ['rotameter'], 15)).map(lambda c: dict(D=c['D'], D2=c['D']*c['b'], meter_type=c['meter_type'])))
def dpm(D, D2, P1, P2, C=None, meter_type=None):
    t = meter_type or 'ISO 5167 orifice'
    if t in SIMPLE + NOZ: return ValueError if C is None else dPo(D, D2, P1, P2, C)
    if t == 'venturi nozzle': return NotImplementedError
    if t in VEN: return dPv(D, D2, P1, P2)
    if t in CONE: return (1.09 - .813*cbeta(D, D2))*(P1 - P2)
    if t in WEDGE: return (1.09 - .79*wbeta(D, D2))*(P1 - P2)
    return ValueError
r('differential_pressure_meter_dP', dpm, _n=600, _rtol=1e-9, _label=lambda **c: str(c.get('meter_type')), _strategy=pres(rec(D=D_, b=uf(.05, .95)).map(lambda c: dict(D=c['D'], D2=c['D']*c['b'])), C=opt(C_, 6), meter_type=opt(inear(pick(ALL), ['rotameter'], 15), 8)))
