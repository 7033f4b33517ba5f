"""C07: gas pipeline equations: documented formula, every unknown, choking and arity refusals."""
from math import sqrt, pi, log, exp
from scipy.optimize import brentq
import fluids
from fluids import compressible
from vf.core import *

P = Prop('C07', rule='A consistent pipeline state (pressures, diameter, length, gravity, temperature, base conditions, efficiency) is drawn log-uniformly, '
         'the flow computed from the reference equation, and each of the five unknowns solved for in turn. Non-trivial: pressure ratio above 1.0001.')

def gp(P1, P2): return P1*P1 - P2*P2
REFS = {
 'Panhandle_A': (lambda s: 158.0205328706957*s['E']*(s['Ts']/s['Ps'])**1.0788*(gp(s['P1'], s['P2'])/(s['L']*s['SG']**.8539*s['Tavg']*s['Zavg']))**.5394*s['D']**2.6182, .92),
 'Panhandle_B': (lambda s: 152.88116342980546*s['E']*(s['Ts']/s['Ps'])**1.02*(gp(s['P1'], s['P2'])/(s['L']*s['SG']**.961*s['Tavg']*s['Zavg']))**.51*s['D']**2.53, .92),
 'Weymouth': (lambda s: 137.32958099425126*s['E']*(s['Ts']/s['Ps'])*(gp(s['P1'], s['P2'])/(s['L']*s['SG']*s['Tavg']*s['Zavg']))**.5*s['D']**2.667, .92),
 'Spitzglass_high': (lambda s: 125.1060*s['E']*(s['Ts']/s['Ps'])*(gp(s['P1'], s['P2'])/(s['L']*s['SG']*s['Tavg']*s['Zavg']*(1 + .09144/s['D'] + 150/127*s['D'])))**.5*s['D']**2.5, 1.),
 'Spitzglass_low': (lambda s: 125.1060*s['E']*(s['Ts']/s['Ps'])*(2*(s['P1'] - s['P2'])*(s['Ps'] + 1210)/(s['L']*s['SG']*s['Tavg']*s['Zavg']*(1 + .09144/s['D'] + 150/127*s['D'])))**.5*s['D']**2.5, 1.),
 # efficiency and compressibility are accepted but not part of the documented Oliphant formula
 'Oliphant': (lambda s: 84.58717613991857*(s['D']**2.5 + s['D']**3/(30*sqrt(.0254)))*s['Ts']/s['Ps']*(gp(s['P1'], s['P2'])/(s['L']*s['SG']*s['Tavg']))**.5, .92),
 'Fritzsche': (lambda s: 93.50009798751129*s['E']*s['Ts']/s['Ps']*(gp(s['P1'], s['P2'])/(s['L']*s['SG']**.8587*s['Tavg']*s['Zavg']))**.538*s['D']**2.69, 1.),
 'Muller': (lambda s: 15.774399086420774*s['Ts']/s['Ps']*s['E']*(gp(s['P1'], s['P2'])/(s['Tavg']*s['L']*s['Zavg']))**.575*s['D']**2.725/(s['mu']**.15*s['SG']**.425), 1.),
 'IGT': (lambda s: 24.62412451461407*s['Ts']/s['Ps']*s['E']*(gp(s['P1'], s['P2'])/(s['Tavg']*s['L']*s['Zavg']))**(5/9)*s['D']**(8/3)/(s['mu']**(1/9)*s['SG']**(4/9)), 1.),
}
UNK = ['Q', 'P1', 'P2', 'D', 'L']
def mk(name):
    ref, Edef = REFS[name]
    low = name == 'Spitzglass_low'
    @P.sub(rec(P1=lf(1e5, 2e7) if not low else lf(101400, 3e5), y=uf(.02, .99999, (.5,)), D=lf(.02, 3), L=lf(1, 1e6), SG=lf(.06, 3), Tavg=uf(200, 500), mu=lf(5e-6, 5e-5),
               Ts=opt(uf(250, 320)), Ps=opt(uf(9e4, 1.1e5)), Zavg=opt(uf(.3, 1.5)), E=opt(uf(.5, 1.2)), also=st.lists(pick(UNK), min_size=1, max_size=4, unique=True)), n=250, name=name)
    def f(ctx, P1, y, D, L, SG, Tavg, mu, Ts, Ps, Zavg, E, also):
        fn = getattr(compressible, name)
        s = dict(P1=P1, P2=y*P1, D=D, L=L, SG=SG, Tavg=Tavg, Ts=288.7 if Ts is None else Ts, Ps=101325. if Ps is None else Ps, Zavg=1. if Zavg is None else Zavg, E=Edef if E is None else E)
        kw = {k: v for k, v in dict(Ts=Ts, Ps=Ps, Zavg=Zavg, E=E).items() if v is not None}
        kw.update(SG=SG, Tavg=Tavg)
        if name in ('Muller', 'IGT'): s['mu'] = kw['mu'] = mu
        Q = ref(s); s['Q'] = Q
        ctx.nontrivial(y < .9999); ctx.label('defaults%d' % sum(v is None for v in (Ts, Ps, Zavg, E)))
        for u in UNK:
            k = dict(kw); k.update({x: s[x] for x in UNK if x != u})
            tol = 1e-9
            # conditioning of the pressures on the flow
            if u == 'P2': tol = 1e-11/y**2 + 1e-11
            got = fn(**k)
            if u == 'D' and (name.startswith('Spitz') or name == 'Oliphant'): tol = 1e-7
            if u in ('Q', 'L', 'D'): tol += 1e-15/(1 - y)*50
            close(got, s[u], tol, 0, '%s for %s' % (name, u))
        raises(ValueError, fn, what=name + ' with nothing unknown', **{**kw, **{x: s[x] for x in UNK}})
        for gone in [also]*(len(also) > 1) + [(a, b) for i, a in enumerate(UNK) for b in UNK[:i]]:
            raises(ValueError, fn, what='%s with unknowns %s' % (name, gone), **{**kw, **{x: s[x] for x in UNK if x not in gone}})
for nm in REFS: mk(nm)

# ---- isothermal -------------------------------------------------------------------------------
def ycrit(C):
    """P2/P1 at choking: C + 2 ln(1/y) = 1/y^2 - 1 (mass flow maximal at fixed P1)."""
    t = brentq(lambda t: C + 2*t - (exp(2*t) - 1), max(1e-12, .3*sqrt(C) if C < 1 else .3), 60) if C > 1e-3 else None
    if t is None:
        # series: 2t^2 + 4/3 t^3 + ... = C
        t = brentq(lambda t: C - 2*t*t - 4/3*t**3 - 2/3*t**4 - 4/15*t**5, 0, 1)
    return exp(-t)
@P.sub(rec(P=lf(1e3, 1e9), fd=lf(.003, .2), D=lf(.005, 3), C=lf(1e-4, 1e5, (699., 700., 736., 745.))), n=600)
def isothermal_critical(ctx, P, fd, D, C):
    L = C*D/fd
    C = fd*L/D
    y = ycrit(C)
    got = compressible.P_isothermal_critical_flow(P=P, fd=fd, D=D, L=L)
    close(got, P*y, 1e-8 if C > .01 else 1e-6, 0, 'isothermal critical pressure at fL/D=%g' % C)

@P.sub(rec(P1=lf(1e5, 2e7), z=uf(.002, .999, (.5,)), fd=lf(.004, .08), D=lf(.01, 2), C=lf(.05, 2e4, (700., 745.)), rho=lf(.5, 200)), n=1500, hang=120)
def isothermal_all_unknowns(ctx, P1, z, fd, D, C, rho):
    L = C*D/fd
    C = fd*L/D
    y = ycrit(C); P2 = P1*(y + (1 - y)*z)
    m2 = (pi*D*D/4)**2*rho*(P1*P1 - P2*P2)/(P1*(C + 2*log(P1/P2)))
    m = sqrt(m2)
    s = dict(P1=P1, P2=P2, L=L, D=D, m=m)
    f = compressible.isothermal_gas
    ctx.label('C>700' if C > 700 else 'C<700', 'near choke' if z < .05 else 'z>.05')
    close(f(rho, fd, P1=P1, P2=P2, L=L, D=D), m, 1e-9, 0, 'm')
    close(f(rho, fd, P1=P1, P2=P2, m=m, D=D), L, 1e-8*(1 + 10/C), 0, 'L')
    # near choking dm/dP2 -> 0: judge by the flow the solution reproduces, and by the solution away from choking
    for u in ('P1', 'P2'):
        got = f(rho, fd, **{k: v for k, v in s.items() if k != u})
        t = dict(s); t[u] = got
        mb = sqrt((pi*D*D/4)**2*rho*(t['P1']**2 - t['P2']**2)/(t['P1']*(C + 2*log(t['P1']/t['P2']))))
        close(mb, m, 1e-6, 0, 'flow reproduced by solved ' + u)
        if .05 < z < .98:
            close(got, s[u], 1e-5, 0, u)
    if .05 < z < .98:
        close(f(rho, fd, **{k: v for k, v in s.items() if k != 'D'}), D, 1e-6, 0, 'D')

@P.sub(rec(P1=lf(1e5, 2e7), z=uf(.01, .999), fd=lf(.004, .08), D=lf(.01, 2), C=lf(.05, 2e4, (700., 745.)), rho=lf(.5, 200), x=lf(1.001, 10),
           also=st.lists(pick(['m', 'P1', 'P2', 'D', 'L']), min_size=2, max_size=4, unique=True)), n=400)
def isothermal_refusals(ctx, P1, z, fd, D, C, rho, x, also):
    L = C*D/fd; C = fd*L/D
    y = ycrit(C); f = compressible.isothermal_gas
    raises(ValueError, f, rho, fd, P1=P1, P2=P1*y*z*.9999, L=L, D=D, what='choked outlet pressure')
    raises(ValueError, f, rho, fd, P1=P1, P2=P1*x, L=L, D=D, what='outlet above inlet')
    Pc = P1*y
    mmax = sqrt((pi*D*D/4)**2*rho*(P1*P1 - Pc*Pc)/(P1*(C + 2*log(P1/Pc))))
    raises(ValueError, f, rho, fd, P1=P1, m=mmax*x, L=L, D=D, what='flow above choked flow')
    s = dict(P1=P1, P2=P1*(y + (1-y)*z), L=L, D=D, m=mmax/2)
    raises(ValueError, f, rho, fd, what='nothing unknown', **s)
    for gone in [also] + [(a, b) for i, a in enumerate(sorted(s)) for b in sorted(s)[:i]]:
        raises(ValueError, f, rho, fd, what='unknown %s' % (gone,), **{k: v for k, v in s.items() if k not in gone})
