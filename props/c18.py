"""C18: relief valves (API 520/521/526, VDI 3732)."""
from math import sqrt, log10, pi, exp
import fluids
from fluids import safety_valve as sv
from vf.core import *
from vf.refs import reffer
from vf.tables import *

P = Prop('C18', rule='Flows, pressures, temperatures and viscosities over the documented ranges and beyond the range limits, table nodes and branch limits drawn explicitly, both editions. Non-trivial: every distinct input (raising and capped cases counted in labels).',
         assumptions=['API 520 superheat and back-pressure tables are the published data as copied from the pinned tree into props/data/safety_valve.json'])
r = reffer(P, _n=200, _rtol=1e-11)
T = load('safety_valve')
ATM = 101325.
def near(x, k, t=1e-9): return abs(x/k - 1) < t if k else abs(x) < t
INCH2 = .0254**2
SIZES = dict(D=.110, E=.196, F=.307, G=.503, H=.785, J=1.287, K=1.838, L=2.853, M=3.60, N=4.34, P=6.38, Q=11.05, R=16., T=26.)
@P.sub(rec(A=inear(lf(1e-6, .03), [v*INCH2*q for v in SIZES.values() for q in (1 - 1e-12, 1., 1 + 1e-9)])), n=300)
def round_size(ctx, A):
    big = [v*INCH2 for v in SIZES.values() if v*INCH2 >= A*(1 - 1e-14)]
    if any(near(A, v*INCH2, 1e-15) for v in SIZES.values()): raise SkipCase
    if not big: raises(ValueError, sv.API520_round_size, A); ctx.label('too large'); return
    close(sv.API520_round_size(A), min(big), 1e-12, what='smallest orifice not below %g' % A)
@P.sub(rec(i=ints(0, 13)), n=30)
def orifice_table(ctx, i):
    l = list(SIZES)[i]
    ensure(sv.API526_letters[i] == l and len(sv.API526_letters) == len(sv.API526_A) == len(sv.API526_A_sq_inch) == 14, 'orifice letters')
    close(sv.API526_A_sq_inch[i], SIZES[l], 1e-12, what=l); close(sv.API526_A[i], SIZES[l]*INCH2, 1e-12, what=l)
    close(sv.API520_round_size(sv.API526_A[i]), sv.API526_A[i], 0, what='an area equal to a standard orifice')

K = inear(uf(1.01, 1.9), [1.4, 1.001])
def Ck(k): return .03948*exp(-.5) if k == 1 else .03948*sqrt(k*(2/(k + 1))**((k + 1)/(k - 1)))
r('API520_C', Ck, _rtol=1e-9, k=inear(K, [1., 1]))
r('API520_F2', lambda k, P1, P2: sqrt(k/(k - 1)*(P2/P1)**(2/k)*(1 - (P2/P1)**((k - 1)/k))/(1 - P2/P1)), _rtol=1e-8, _strategy=rec(k=K, P1=lf(1.1e5, 1e7), x=uf(.3, .995)).map(lambda c: dict(k=c['k'], P1=c['P1'], P2=c['P1']*c['x'])))
def KN(P1):
    if near(P1, 10339e3): raise SkipCase
    p = P1/1e3
    return 1. if p < 10339 else (.02764*p - 1000)/(.03324*p - 1061)
PN = inear(lf(1e5, 2.2e7, (10339e3,)), [1.5e7, 2e7])
r('API520_N', KN, P1=PN)
def SH(T1, P1, edition=None):
    e = edition or '10E'
    if near(T1, 922.15): raise SkipCase
    if T1 > 922.15: return ValueError
    if e == '7E':
        if near(P1, 20780325) or near(T1, 422.15): raise SkipCase
        if P1 > 20780325: return ValueError
        return 1. if T1 < 422.15 else bilin(T1, P1, T._KSH_tempKs_7E, T._KSH_Pa_7E, T._KSH_factors_7E)
    if e == '10E':
        if near(T1, 478.15) or near(P1, 22063223.338138755): raise SkipCase
        if T1 < 478.15: return 1.
        if P1 > 22063223.338138755: return ValueError
        return bilin(T1, P1, T._KSH_K_10E, T._KSH_Pa_10E, T._KSH_factors_10E)
    return ValueError
TS = inear(uf(380, 940), T._KSH_tempKs_7E + T._KSH_K_10E + [421., 423., 478.15, 922., 923.])
PS = inear(lf(1e5, 2.3e7), T._KSH_Pa_7E + T._KSH_Pa_10E + [2e5, 5e5, 20779325., 22063000., 22064000.])
ED = opt(pick('7E', '10E'), 3)
r('API520_SH', SH, _n=1200, _rtol=1e-9, T1=TS, P1=PS, edition=inear(ED, ['8E']))
@P.sub(rec(T1=TS, P1=PS, ed=pick('7E', '10E')), n=200)
def superheat_factor_bounds(ctx, T1, P1, ed):
    try: v = sv.API520_SH(T1, P1, ed)
    except ValueError: raise SkipCase
    ensure(0 < v <= 1 + 1e-9, 'superheat factor %r', v)
def Kb(Pset, Pback, overpressure=.1):
    g = (Pback - ATM)/(Pset - ATM)*100
    if overpressure not in (.1, .16, .21): return ValueError
    if any(abs(g - b) < 1e-7 for b in (30, 38, 50)): raise SkipCase
    if g < {.1: 30, .16: 38, .21: 50}[overpressure]: return 1.
    if g > 50: return ValueError
    n = '10' if overpressure == .1 else '16'
    return lin(g, T['Kb_%s_over_x' % n], T['Kb_%s_over_y' % n])
def bp(c):
    d = dict(Pset=c['Pset'], Pback=ATM + c['g']/100*(c['Pset'] - ATM))
    if c.get('o') is not None: d['overpressure'] = c['o']
    return d
r('API520_B', Kb, _n=600, _rtol=1e-9, _strategy=rec(Pset=lf(2e5, 5e7), g=inear(uf(0, 55), [30.0263, 37.6478, 37., 38.5, 42., 49.999]), o=opt(pick(.1, .1, .16, .16, .21, .15), 4)).map(bp))
def Kwf(Pset, Pback):
    g = (Pback - ATM)/(Pset - ATM)*100
    if abs(g - 15) < 1e-7: raise SkipCase
    return 1. if g < 15 else lin(g, T.Kw_x, T.Kw_y)
r('API520_W', Kwf, _n=400, _rtol=1e-9, _strategy=rec(Pset=lf(2e5, 5e7), g=inear(uf(0, 55), [15.1, 14.9] + T.Kw_x[1::7])).map(bp))
@P.sub(rec(Pset=lf(2e5, 5e7), g=uf(0, 49.9), d=uf(0, 20), o=pick(.1, .16, .21)), n=200)
def backpressure_corrections_do_not_rise(ctx, Pset, g, d, o):
    a, b = [dict(Pset=Pset, Pback=ATM + x/100*(Pset - ATM)) for x in (g, min(49.95, g + d))]
    ensure(0 < sv.API520_B(overpressure=o, **b) <= sv.API520_B(overpressure=o, **a) + 1e-12 <= 1 + 2e-12, 'Kb rises with the back pressure')
    ensure(0 < sv.API520_W(**b) <= sv.API520_W(**a) + 1e-12 <= 1 + 2e-12, 'Kw rises with the back pressure')
def Kv(Re, edition=None):
    e = edition or '10E'
    if e == '7E': return min(1., 1/(.9935 + 2.878/Re**.5 + 342.75/Re**1.5))
    return (1 + 170/Re)**-.5 if e == '10E' else ValueError
r('API520_Kv', Kv, _n=300, Re=lf(1, 1e8), edition=inear(ED, ['8E']))

FR = dict(Kd=opt(uf(.5, 1)), Kb=opt(uf(.5, 1)), Kc=opt(uf(.8, 1)))
def crit(k): return (2/(k + 1))**(k/(k - 1))
def Ag(m, T, Z, MW, k, P1, P2=ATM, Kd=.975, Kb=1., Kc=1.):
    x = P2/P1; c = crit(k)
    if near(x, c): raise SkipCase
    if not x < .9999: raise SkipCase
    if x < c: return m*3600/(Ck(k)*Kd*Kb*Kc*P1/1e3)*sqrt(T*Z/MW)*1e-6
    F2 = sqrt(k/(k - 1)*x**(2/k)*(1 - x**((k - 1)/k))/(1 - x))
    return 17.9*m*3600/(F2*Kd*Kc)*sqrt(T*Z/(MW*P1*(P1 - P2)*1e-6))*1e-6
GP = dict(m=lf(1e-3, 100), T=uf(200, 900), Z=uf(.4, 1.1), MW=uf(2, 120), k=K, P1=lf(1.1e5, 1e7))
def _g(c):
    x = c.pop('x')
    if x is not None: c['P2'] = c['P1']*x
    return c
r('API520_A_g', Ag, _n=800, _rtol=1e-8, _label=lambda **k: 'critical' if k.get('P2', ATM)/k['P1'] < crit(k['k']) else 'subcritical', _strategy=rec(**GP, x=opt(uf(.1, .99), 4), **FR).map(_g))
@P.sub(rec(**{**GP, 'P1': lf(3e5, 1e7)}), n=200)
def gas_area_is_the_isentropic_nozzle(ctx, m, T, Z, MW, k, P1):
    """with unit coefficients the area passes the choked isentropic mass flux; it is continuous at the critical ratio"""
    if k < 1.02: raise SkipCase
    G = P1*sqrt(k*MW/1e3/(Z*8.31446261815324*T)*(2/(k + 1))**((k + 1)/(k - 1)))
    close(sv.API520_A_g(m, T, Z, MW, k, P1, P2=P1*crit(k)*.5, Kd=1.), m/G, 2e-3, what='choked nozzle area')
    a, b = [sv.API520_A_g(m, T, Z, MW, k, P1, P2=P1*crit(k)*q) for q in (1 - 1e-7, 1 + 1e-7)]
    close(a, b, 2e-3, what='area across the critical ratio')
def As(m, T, P1, Kd=.975, Kb=1., Kc=1., edition=None):
    s = SH(T, P1, edition)
    return s if isinstance(s, type) else 190.5*m*3600/(P1/1e3*Kd*Kb*Kc*KN(P1)*s)*1e-6
r('API520_A_steam', As, _n=600, _rtol=1e-9, m=lf(1e-3, 100), T=TS, P1=PS, edition=ED, **FR)

def Al(m, rho, P1, P2, overpressure, Kd=.65, Kc=1., Kw=None, Kv=None, edition=None, mu=None):
    e = edition or '10E'
    if Kw is None: Kw = Kwf((P1 - ATM)/(1 + overpressure) + ATM, P2)
    q = 11.78*m/rho*6e4*sqrt(rho/999.0107539518483/((P1 - P2)/1e3))*1e-6/(Kd*Kw*Kc)
    if Kv is None:
        if mu is None: Kv = 1.
        else:
            D = sqrt(4*q/pi); Kv = _Kv(4*m/(pi*D*mu), e)
    return q/Kv
_Kv = Kv
def _l(c):
    x = c.pop('x'); c['P2'] = ATM + x*(c['P1'] - ATM)/(1 + c['overpressure']); return c
LIQ = dict(m=lf(1e-2, 500), rho=uf(500, 1500), P1=lf(1.5e5, 1e7), x=inear(uf(0, .55), [.15, .2]), overpressure=inear(uf(0, .3), [.1, .16, .21, .25]))
r('API520_A_l', Al, _n=800, _rtol=1e-9, _label=lambda **k: ('mu' if 'mu' in k else 'no mu') + (' Kv' if 'Kv' in k else ' auto') + (' Kw' if 'Kw' in k else ''),
  _strategy=rec(**LIQ, Kd=opt(uf(.5, 1)), Kc=opt(uf(.8, 1)), Kw=opt(uf(.6, 1)), Kv=opt(uf(.3, 1)), edition=ED, mu=opt(lf(1e-4, 10), 3)).map(_l))
@P.sub(rec(**LIQ, Kd=uf(.5, 1), Kc=uf(.8, 1), Kv=uf(.3, 1), Kw=uf(.6, 1)), n=150)
def liquid_area_loss_coefficient(ctx, m, rho, P1, x, overpressure, Kd, Kc, Kv, Kw):
    """documented: dP = K rho v^2/2 with K = (1/(Kd Kw Kc Kv 11.779/11.78))^2"""
    P2 = P1*x/1.3
    A = sv.API520_A_l(m, rho, P1, P2, overpressure, Kd=Kd, Kc=Kc, Kw=Kw, Kv=Kv)
    close(2*A*A*rho*(P1 - P2)/m**2, (1/(Kd*Kw*Kc*Kv*(11.779282389196/11.78)))**2, 1e-9, what='loss coefficient')
@P.sub(rec(**GP, s=uf(1.1, 10)), n=150)
def areas_scale(ctx, s, **k):
    a = sv.API520_A_g(**k); close(sv.API520_A_g(**dict(k, m=k['m']*s)), a*s, 1e-12, what='gas area vs flow')
    ensure(sv.API520_A_g(**dict(k, P1=k['P1']*s, P2=ATM)) < a, 'a higher relieving pressure needs a larger area')
    b = sv.API520_A_steam(k['m'], 450., k['P1']); close(sv.API520_A_steam(k['m']*s, 450., k['P1']), b*s, 1e-12, what='steam area vs flow')

def graph(P_ratio):
    x = max(1., P_ratio); l = log10(x); a, b = 87.9084*l + 12.7647, 4.8239*l + 51.6217
    if any(near(x, q) for q in (2.92, 2.93)): raise SkipCase
    if x < 2.92: return a
    if x > 2.93: return b
    return a + (x - 2.92)/.01*(b - a)
PR = inear(lf(.5, 20, (1., 2.92, 2.93)), [2.925, 2.922])
r('API521_noise_graph', graph, P_ratio=PR)
r('API521_noise', lambda m, P1, P2, c, r: graph(P1/P2) + 10*log10(.5*m*c*c) - 20*log10(r/30), m=lf(1e-2, 1e3), P1=lf(1e5, 1e7), P2=lf(9e4, 2e5), c=uf(200, 1300), r=lf(1, 1e4))
@P.sub(rec(x=PR, d=lf(1e-6, 3)), n=100)
def noise_graph_rises(ctx, x, d): ensure(sv.API521_noise_graph(x + d) >= sv.API521_noise_graph(x) - 1e-9, 'noise falls with the pressure ratio')
@P.sub(rec(m=lf(1e-3, 1e3), elevated=pick(True, False), known=False), n=150)
def VDI_3732(ctx, m, elevated, known):
    a, b = (112, 17) if elevated else (100, 15)
    got = (sv.VDI_3732_noise_elevated_flare if elevated else sv.VDI_3732_noise_ground_flare)(m)
    if known: close(got, a + b*log10(m*3.6), 1e-10, what='VDI 3732 noise'); return
    try: close(got, a + b*log10(m*3.6), 1e-10, what='VDI 3732 noise')
    except Violation: close(got, a + b*log10(m*360.), 1e-10, what='VDI 3732 noise')   # recorded finding: kg/s taken to tonne/hour with 360 instead of 3.6
