"""C08: compression, stagnation and critical flow relations."""
from math import sqrt, log, exp
from scipy.integrate import quad
import fluids
from fluids import compressible as c
from vf.core import *
from vf.refs import reffer

P = Prop('C08', rule='Gas states drawn log-uniformly (pressures over 8 decades, both compression and expansion, k or n from 1.005 to 3); each solvable quantity left out in turn. '
         'Non-trivial: pressure ratio differs from one by more than 1e-6.')
r = reffer(P, _n=150, _rtol=1e-11)
R = 8.31446261815324
PR = lf(1e2, 1e9); T = lf(20, 5e3); KK = uf(1.005, 3., (1.4,))
r('isothermal_work_compression', lambda P1, P2, T, Z=1.: Z*R*T*(log(P2) - log(P1)), P1=PR, P2=PR, T=T, Z=opt(uf(.2, 2)), _rtol=1e-10, _atol=1e-9)
r('isentropic_T_rise_compression', lambda T1, P1, P2, k, eta=1.: T1*(1 + ((P2/P1)**((k-1)/k) - 1)/eta), T1=T, P1=PR, P2=PR, k=KK, eta=opt(uf(.1, 1)), _atol=1e-9, _rtol=1e-10)
r('T_critical_flow', lambda T, k: T*2/(k+1), T=T, k=KK)
r('P_critical_flow', lambda P, k: P*(2/(k+1))**(k/(k-1)), P=PR, k=KK)
r('stagnation_energy', lambda V: V*V/2, V=lf(1e-4, 1e4))
r('P_stagnation', lambda P, T, Tst, k: P*(Tst/T)**(k/(k-1)), P=PR, T=lf(200, 1500), Tst=lf(200, 1500), k=KK, _rtol=1e-10)
r('T_stagnation', lambda T, P, Pst, k: T*(Pst/P)**((k-1)/k), T=T, P=PR, Pst=PR, k=KK)
r('T_stagnation_ideal', lambda T, V, Cp: T + V*V/2/Cp, T=T, V=lf(1e-3, 1e4), Cp=lf(10, 1e5))

def Wref(s): return s['k']/(s['k']-1)*s['Z']*R*s['T1']*((s['P2']/s['P1'])**((s['k']-1)/s['k']) - 1)/s['eta']
@P.sub(rec(T1=T, k=KK, Z=opt(uf(.2, 2)), P1=PR, x=lf(1e-3, 1e3), eta=uf(.05, 1., (1.,)), drop=st.lists(pick(['W', 'P1', 'P2', 'eta']), min_size=0, max_size=4, unique=True)), n=800)
def isentropic_work(ctx, T1, k, Z, P1, x, eta, drop):
    s = dict(T1=T1, k=k, Z=1. if Z is None else Z, P1=P1, P2=P1*x, eta=eta)
    W = Wref(s); s['W'] = W
    kw = dict(T1=T1, k=k)
    if Z is not None: kw['Z'] = Z
    ctx.nontrivial(abs(x - 1) > 1e-6); ctx.label('compression' if x > 1 else 'expansion')
    U = ['W', 'P1', 'P2', 'eta']
    cond = 1 + 1/max(abs(log(x)*(k-1)/k), 1e-12)
    # conditioning of P on W: 1 + W eta (k-1)/(Z R T1 k) = x^((k-1)/k)
    for u in U:
        got = c.isentropic_work_compression(**kw, **{y: s[y] for y in U if y != u})
        tol = 1e-14*cond*30 if u in ('W', 'eta') else 1e-14*k/(k-1)*50
        if u in ('P1', 'P2'): tol *= max(1, (1/x)**((k-1)/k))
        if u == 'eta' and abs(x-1) < 1e-9: continue
        close(got, s[u], tol + 1e-12, 1e-9 if u == 'W' else 0, 'isentropic_work_compression for ' + u)
    for gone in [drop]*(len(drop) != 1) + [(a, b) for i, a in enumerate(U) for b in U[:i]]:
        raises(ValueError, c.isentropic_work_compression, what='without %s' % (gone,), **kw, **{y: s[y] for y in U if y not in gone})

@P.sub(rec(T1=uf(100, 1500), k=uf(1.02, 2.5), P1=lf(1e3, 1e7), x=uf(.05, 30)), n=80)
def work_is_integral_of_v_dp(ctx, T1, k, P1, x):
    V1 = R*T1/P1
    want = quad(lambda lp: V1*(P1/exp(lp))**(1/k)*exp(lp), log(P1), log(P1*x), epsabs=1e-7, epsrel=1e-11)[0]
    close(c.isentropic_work_compression(T1=T1, k=k, P1=P1, P2=P1*x, eta=1.), want, 1e-8, 1e-5, 'isentropic work vs integral of V dP')
    want = quad(lambda lp: V1*P1/exp(lp)*exp(lp), log(P1), log(P1*x), epsabs=1e-7, epsrel=1e-11)[0]
    close(c.isothermal_work_compression(P1, P1*x, T1), want, 1e-9, 1e-6, 'isothermal work vs integral of V dP')

@P.sub(rec(P1=PR, x=lf(1.001, 200), k=uf(1.02, 2.5), eta=uf(.3, 1., (1.,)), T1=T, expand=pick([0, 1])), n=600)
def efficiencies(ctx, P1, x, k, eta, T1, expand):
    if expand and eta < .5: eta = .5 + eta/2
    P2 = P1/x if expand else P1*x
    e = (k-1)/k
    es = ((P2/P1)**e - 1)/((P2/P1)**(e/eta) - 1)
    got = c.isentropic_efficiency(P1, P2, k, eta_p=eta)
    t = 1e-12*(1 + 1/(e*log(x)))
    close(got, es, t, 0, 'eta_s from eta_p')
    back = c.isentropic_efficiency(P1, P2, k, eta_s=es)
    # log of 1+((..)-1)/eta_s : amplification (P2/P1)^(e/eta)
    close(back, eta, t*100*(P1/P2 if expand else 1)**(e/eta) , 0, 'eta_p back')
    raises(ValueError, c.isentropic_efficiency, P1, P2, k)
    # polytropic exponent
    if abs(1 - k*(1 - eta)) > 1e-2:
        n = c.polytropic_exponent(k, eta_p=eta); close(n, k*eta/(1 - k*(1 - eta)), 1e-11, 0, 'n')
        close(c.polytropic_exponent(k, n=n), eta, 1e-12*(1 + 1/abs(n-1))*10, 0, 'eta_p back from n')
        close(n*(k-1)/(k*(n-1)), eta, 1e-9, 0, 'definition of polytropic efficiency')
        if n > 1 and not expand:
            # polytropic outlet temperature: exponent n, efficiency one == isentropic with eta_s
            close(c.isentropic_T_rise_compression(T1, P1, P2, n), c.isentropic_T_rise_compression(T1, P1, P2, k, es), 1e-8, 0, 'T rise: n vs eta_s')
    raises(ValueError, c.polytropic_exponent, k)
    raises(ValueError, c.isentropic_efficiency, P1, P2, k, eta_s=es, eta_p=eta)
    raises(ValueError, c.polytropic_exponent, k, n=1.3, eta_p=eta)

@P.sub(rec(T=T, V=lf(.1, 3e3), k=uf(1.02, 2.5), MW=lf(2, 300), P1=PR), n=400)
def stagnation_consistency(ctx, T, V, k, MW, P1):
    Cp = k/(k-1)*R/(MW*1e-3)
    Tst = c.T_stagnation_ideal(T, V, Cp)
    close(Cp*(Tst - T), c.stagnation_energy(V), 1e-9*max(1, Tst/(Tst - T)*1e-4) if Tst > T else 1, 1e-9*Cp*T*1e-3, 'energy')
    Pst = c.P_stagnation(P1, T, Tst, k)
    close(c.T_stagnation(T, P1, Pst, k), Tst, 1e-11, 0, 'T_stagnation inverts P_stagnation')
    close(c.P_stagnation(P1, T, c.T_stagnation(T, P1, P1*1.7, k), k), P1*1.7, 1e-11*k/(k-1), 0, 'P_stagnation inverts T_stagnation')
    # Mach-number form
    M = V/sqrt(k*R/(MW*1e-3)*T)
    close(Tst/T, 1 + (k-1)/2*M*M, 1e-10, 0, 'T0/T vs Mach number')
    # M = 1 is critical flow
    Vs = sqrt(k*R/(MW*1e-3)*T); T0 = c.T_stagnation_ideal(T, Vs, Cp); P0 = c.P_stagnation(P1, T, T0, k)
    close(c.T_critical_flow(T0, k), T, 1e-10, 0, 'critical temperature is the static temperature at Mach 1')
    close(c.P_critical_flow(P0, k), P1, 1e-10*k/(k-1), 0, 'critical pressure is the static pressure at Mach 1')

@P.sub(rec(P1=PR, k=KK, x=uf(.0, 1.5), eps=pick([0, 0, 1e-9, -1e-9, 1e-3, -1e-3])), n=600)
def critical_flag(ctx, P1, k, x, eps):
    pc = P1*(2/(k+1))**(k/(k-1))
    P2 = pc*(1 + eps) if eps else P1*x
    if abs(P2/pc - 1) < 1e-11: raise SkipCase
    got = c.is_critical_flow(P1, P2, k)
    ensure(bool(got) == (P2 < pc), 'is_critical_flow(%r, %r, %r) = %r with critical pressure %r', P1, P2, k, got, pc)
    ctx.label('critical' if P2 < pc else 'subcritical', 'boundary' if eps else 'bulk')

@P.sub(rec(P=PR, k=KK), n=100)
def critical_flow_maximises_flux(ctx, P, k):
    """mass flux G(y) of isentropic nozzle flow is stationary at the critical pressure ratio."""
    y = c.P_critical_flow(P, k)/P
    G = lambda y: k/(k-1)*(y**(2/k) - y**((k+1)/k))
    ensure(G(y) >= G(y*1.001) and G(y) >= G(y*.999), 'critical ratio does not maximise the isentropic mass flux (k=%r)', k)
