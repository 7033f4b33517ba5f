"""C19: the differential-pressure flow-meter equation, for every unknown."""
from math import sqrt, log, pi
import numpy as np
from scipy.interpolate import RectBivariateSpline
import fluids
from fluids import flow_meter as fm
from vf.core import *
from vf.refs import reffer, dropn
from vf.tables import *
from props import c20 as R

P = Prop('C19', rule='States built forwards: bore 20 mm to 1 m, diameter ratio in the published range of each meter, pressure ratio 0.56 to 0.9999, gas-like and liquid-like fluids, every meter type and tapping; the flow is then solved for and each other unknown is solved back. Non-trivial: a state whose flow Reynolds number lies in 1e3..1e9.',
         assumptions=['Hollingshead tables as copied into props/data/flow_meter.json; their surfaces are interpolating splines (the documented construction)'])
r = reffer(P, _n=200, _rtol=1e-9)
T = R.T
_sp = {k: RectBivariateSpline(np.array(b), np.log(np.array(Re)), np.array(C), kx=kx, ky=3, s=0) for k, b, Re, C, kx in (
    ('Hollingshead orifice', T.orifice_std_betas_Hollingshead, T.orifice_std_Res_Hollingshead, T.orifice_std_Hollingshead_Cs, 3),
    ('Hollingshead v cone', T.cone_betas_Hollingshead, T.cone_Res_Hollingshead, T.cone_Hollingshead_Cs, 2),
    ('Hollingshead wedge', T.wedge_betas_Hollingshead, T.wedge_Res_Hollingshead, T.wedge_Hollingshead_Cs, 1))}
ALIAS = {'orifice': 'ISO 5167 orifice', 'eccentric orifice': 'ISO 15377 eccentric orifice', 'conical orifice': 'ISO 15377 conical orifice',
         'quarter circle orifice': 'ISO 15377 quarter-circle orifice', 'segmental orifice': 'Miller segmental orifice'}
def b_of(t, D, D2): return R.dbeta(D, D2, t)
def eps(t, D, D2, P1, P2, k):
    if t in R.CONE: return 1 - (.649 + .696*b_of(t, D, D2)**4)*(P1 - P2)/(k*P1)
    o = lambda: 1 - (.351 + .256*(D2/D)**4 + .93*(D2/D)**8)*(1 - (P2/P1)**(1/k))
    if t in ('ISO 15377 conical orifice', 'Miller conical orifice'): return (o() + R.noz(D, D2, P1, P2, k))/2
    if t in R.SIMPLE or t == 'unspecified meter': return o()
    return R.noz(D, D2, P1, P2, k, b_of(t, D, D2))
def Ceps(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=None, tap_position=None, C_specified=None, epsilon_specified=None):
    t = ALIAS.get(meter_type, meter_type)
    if t not in R.ALL + ['unspecified meter']: return ValueError
    lRe = log(4*m/(pi*D*mu))
    C = None
    if t == 'ISO 5167 orifice': C = R.RHG(D, D2, rho, mu, m, taps)
    elif t.startswith('Miller'): C = R.Miller_C(D, D2, rho, mu, m, t, taps or 'x', tap_position or 'x')
    elif t == 'ISO 15377 eccentric orifice': C = .9355 - 1.6889*(D2/D) + 3.0428*(D2/D)**2 - 1.7989*(D2/D)**3
    elif t == 'ISO 15377 quarter-circle orifice': C = .73823 + .3309*(D2/D) - 1.16158*(D2/D)**2 + 1.5084*(D2/D)**3
    elif t == 'ISO 15377 conical orifice': C = .734
    elif t == 'long radius nozzle': C = .9965 - .00653*sqrt(D2/D*1e6/(4*m/(pi*D*mu)))
    elif t == 'ISA 1932 nozzle': C = .99 - .2262*(D2/D)**4.1 - (.00175*(D2/D)**2 - .0033*(D2/D)**4.15)*(1e6/(4*m/(pi*D*mu)))**1.15
    elif t == 'venturi nozzle': C = .9858 - .196*(D2/D)**4.5
    elif t == 'as cast convergent venturi tube': C = .984
    elif t == 'machined convergent venturi tube': C = .995
    elif t == 'rough welded convergent venturi tube': C = .985
    elif t == 'cone meter': C = .82
    elif t == 'wedge meter': C = .77 - .09*R.wbeta(D, D2)
    elif t in _sp: C = float(_sp[t](b_of(t, D, D2), lRe)[0, 0])
    elif t.startswith('Hollingshead venturi'):
        C = lin(lRe, [log(i) for i in T.venturi_Res_Hollingshead], T.venturi_smooth_Cs_Hollingshead if 'smooth' in t else T.venturi_sharp_Cs_Hollingshead, True)
    elif C_specified is None: return ValueError
    if isinstance(C, type): return C
    if C_specified is not None: C = C_specified
    return C, eps(t, D, D2, P1, P2, k) if epsilon_specified is None else epsilon_specified
def m_eq(D, D2, P1, P2, rho, C, e, t):
    b = b_of(t, D, D2)
    return C*e*pi/4*(D*b)**2*sqrt(2*rho*(P1 - P2)/(1 - b**4))
# ---------------------------------------------------------------- generators
TYPES = [(t, None, None) for t in R.ALL if not t.startswith('Miller') and t not in ('ISO 5167 orifice', 'orifice', 'segmental orifice')]
TYPES += [(t, p, None) for t in ('ISO 5167 orifice', 'orifice') for p in (None, 'corner', 'flange', 'D', 'D/2')]
TYPES += [('Miller orifice', p, None) for p in ('corner', 'flange', 'D and D/2', 'pipe')] + [('Miller conical orifice', None, None), ('Miller quarter circle orifice', None, None)]
TYPES += [('Miller eccentric orifice', p, q) for p in ('flange', 'vena contracta') for q in ('180 degree', '90 degree')]
TYPES += [(t, p, None) for t in ('Miller segmental orifice', 'segmental orifice') for p in ('flange', 'vena contracta')]
def state(c):
    t, taps, pos = c['type']; u = c['b']
    if t == 'Hollingshead orifice': b = .5 + .2*u
    elif t == 'Hollingshead v cone': b = sqrt(1 - (.6611 + .1592*u)**2)
    elif t == 'Hollingshead wedge': b = .3 + .1*u
    elif t in R.CONE: b = sqrt(1 - (.45 + .3*u)**2)
    elif t in R.WEDGE: b = .2 + .4*u
    elif 'venturi' in t: b = .3 + .45*u
    else: b = .2 + .55*u
    rho = c['rho']; P1 = c['P1']
    o = dict(D=c['D'], D2=c['D']*b, P1=P1, P2=P1*c['x'], rho=rho, mu=c['mu'], k=c['k'], meter_type=t, taps=taps, tap_position=pos, C_specified=c['C'], epsilon_specified=c['e'])
    return o
FL = dict(type=pick(TYPES), D=inear(lf(.03, 1.), [.1, .0999, .07112]), b=unit, P1=lf(5e4, 3e7), x=inear(uf(.56, .9999), [.99, .75]), rho=inear(lf(.5, 60), [1000., 800.], 3), mu=lf(5e-6, 2e-3), k=uf(1.05, 1.7),
          C=opt(uf(.55, 1.), 6).map(lambda v: None), e=None)
ST = rec(**FL).map(state)
STC = rec(**{**FL, 'type': inear(pick(TYPES), [('unspecified meter', None, None)], 4), 'C': inear(uf(.5, 1.), [None], 3), 'e': inear(uf(.6, 1.), [None], 2)}).map(state).filter(lambda c: c['C_specified'] or c['meter_type'] != 'unspecified meter')
# ---------------------------------------------------------------- C and epsilon of every type
def withm(c): c = dict(c); c['m'] = c.pop('Re')*pi/4*c['c']['D']*c['c']['mu']; return {**c.pop('c'), **c}
r('differential_pressure_meter_C_epsilon', Ceps, _n=1500, _rtol=1e-8, _label=lambda **c: c['meter_type'], _strategy=rec(c=ST, Re=lf(1e3, 1e8)).map(withm))
r('differential_pressure_meter_C_epsilon', Ceps, _name='C_epsilon_specified', _n=300, _rtol=1e-8, _strategy=rec(c=STC, Re=lf(1e3, 1e8)).map(withm))
@P.sub(rec(c=ST, bad=pick('meter_type', 'taps', 'unspecified')), n=100)
def bad_options(ctx, c, bad):
    c = dict(c, m=1.)
    if bad == 'meter_type': c['meter_type'] = 'elbow meter'
    elif bad == 'unspecified': c['meter_type'] = 'unspecified meter'; c['C_specified'] = None
    elif c['meter_type'] in ('ISO 5167 orifice', 'orifice', 'Miller orifice', 'Miller eccentric orifice', 'Miller segmental orifice', 'segmental orifice'): c['taps'] = 'radius'
    else: raise SkipCase
    raises(ValueError, fm.differential_pressure_meter_C_epsilon, **dropn(c))
    m = c.pop('m')
    raises(Exception, fm.differential_pressure_meter_solver, m=m, P2=c['P2'], **{k: v for k, v in dropn(c).items() if k not in ('P2', 'P1')})
def disch(D, Do, P1, P2, rho, C, expansibility=1., meter_type='ISO 5167 orifice'): return m_eq(D, Do, P1, P2, rho, C, expansibility, meter_type)
r('flow_meter_discharge', disch, _n=300, _strategy=rec(s=ST, C=uf(.5, 1.), e=opt(uf(.5, 1.))).map(lambda c: dict(D=c['s']['D'], Do=c['s']['D2'], P1=c['s']['P1'], P2=c['s']['P2'], rho=c['s']['rho'], C=c['C'], expansibility=c['e'], meter_type=c['s']['meter_type'])))
# ---------------------------------------------------------------- solver
def resid(m, c):
    want = Ceps(m=m, **dropn({**c, 'k': c['k'] or 1.4}))
    if isinstance(want, type): raise SkipCase
    return m_eq(c['D'], c['D2'], c['P1'], c['P2'], c['rho'], want[0], want[1], c['meter_type'])
def monotone(c):
    """the flow rises all the way as P2 falls to half of P1, so P2 is determined by the flow (not so past the choking pressure)"""
    e = [eps(c['meter_type'] if c['meter_type'] not in ALIAS else ALIAS[c['meter_type']], c['D'], c['D2'], c['P1'], c['P1']*x/100, c['k'] or 1.4)*sqrt(100 - x) for x in range(45, 100, 2)]
    return all(a > b*(1 + 1e-3) for a, b in zip(e, e[1:]))
def trip(ctx, c, unknown):
    if 4*m_eq(c['D'], c['D2'], c['P1'], c['P2'], c['rho'], .5, .6, c['meter_type'])/(pi*c['D']*c['mu']) < 3e3: raise SkipCase  # far below every published Reynolds range the nozzle equations have no solution
    m = fm.differential_pressure_meter_solver(**{k: v for k, v in dropn(c).items()})
    finite(m, 'm'); ensure(m > 0, 'mass flow %r', m)
    close(m, resid(m, c), 3e-7, what='flow equation (%s)' % c['meter_type'])
    Re = 4*m/(pi*c['D']*c['mu'])
    ctx.nontrivial(1e3 < Re < 1e9); ctx.label('%s %s' % (c['meter_type'], unknown))
    if unknown == 'm': return
    d = {k: v for k, v in dropn(c).items() if k != unknown}
    got = fm.differential_pressure_meter_solver(m=m, **d)
    finite(got, unknown)
    n = dict(c); n[unknown] = got
    ensure(n['P1'] > n['P2'] > 0 and 0 < n['D2'] < n['D'], 'solution %s=%r outside the physical range', unknown, got)
    close(m, resid(m, n), 1e-6 + 2e-7*c["P1"]/(c["P1"] - c["P2"]), what='flow equation after solving for %s (%s)' % (unknown, c['meter_type']))
    if unknown == 'P2' and not monotone(c): ctx.label('choking'); return
    close(got, c[unknown], 1e-5, what='recovered %s (%s)' % (unknown, c['meter_type']))
@P.sub(ST, n=500, hang=60)
def solve_m(ctx, **c): trip(ctx, c, 'm')
@P.sub(ST, n=600, hang=60)
def solve_D2(ctx, **c): trip(ctx, c, 'D2')
@P.sub(ST, n=600, hang=60)
def solve_P1(ctx, **c): trip(ctx, c, 'P1')
@P.sub(ST, n=600, hang=60)
def solve_P2(ctx, **c): trip(ctx, c, 'P2')
@P.sub(rec(c=STC, unknown=pick('m', 'D2', 'P1', 'P2')), n=300, hang=60)
def solve_specified(ctx, c, unknown):
    """specified C and epsilon override the correlations; k may be omitted when epsilon is specified"""
    if c['C_specified'] is None: raise SkipCase
    c = dict(c)
    if c['epsilon_specified'] is not None: c['k'] = None
    trip(ctx, c, unknown)
    if unknown == 'm':
        e = c['epsilon_specified'] if c['epsilon_specified'] is not None else eps(ALIAS.get(c['meter_type'], c['meter_type']), c['D'], c['D2'], c['P1'], c['P2'], c['k'])
        close(fm.differential_pressure_meter_solver(**dropn(c)), m_eq(c['D'], c['D2'], c['P1'], c['P2'], c['rho'], c['C_specified'], e, c['meter_type']), 3e-7, what='explicit flow with specified C')
@P.sub(rec(c=ST, drop=pick('both', 'none')), n=60)
def unknowns(ctx, c, drop):
    d = dropn(c)
    if drop == 'both': d.pop('P1'); d.pop('P2'); d['m'] = 1.
    else: d['m'] = 1.
    full = dict(d, P1=c['P1'], P2=c['P2'])
    for a, b in (('m', 'P1'), ('m', 'P2'), ('m', 'D2'), ('P1', 'P2'), ('P1', 'D2'), ('P2', 'D2')):
        raises(ValueError, fm.differential_pressure_meter_solver, what='%s and %s unknown' % (a, b), **{k: v for k, v in full.items() if k not in (a, b)})
    if drop == 'none': raises(ValueError, fm.differential_pressure_meter_solver, what='fully specified solver call', **d)
    else: raises(ValueError, fm.differential_pressure_meter_solver, what='two unknowns', **d)
