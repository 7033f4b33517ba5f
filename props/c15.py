"""C15: the pressure drop a coefficient predicts does not depend on the basis it is expressed in."""
from math import sqrt, pi
import fluids
from fluids import core, control_valve, fittings, flow_meter
from vf.core import *

P = Prop('C15', rule='A loss coefficient, a pipe, a fluid and a flow rate are drawn; the coefficient is taken through a random chain of '
         're-expressions (other diameter, Kv, Cv, Av, equivalent length, friction factor, discharge coefficient), '
         'and the predicted pressure drop is computed at every step. Non-trivial: chain of at least two steps.')

def dP_kind(kind, v, D, rho, Q, f, L, Do):
    V = Q/(pi/4*D*D)
    if kind == 'K': return core.dP_from_K(v, rho, V)
    if kind == 'L/D': return f*v*rho*V*V/2
    if kind == 'L': return f*v/D*rho*V*V/2
    if kind == 'f': return v*L/D*rho*V*V/2
    if kind == 'Kv': return (Q*3600/v)**2*1e5*rho/1000*KVFIX
    if kind == 'Cv': return (Q*3600/(v*KVCV))**2*1e5*rho/1000*KVFIX
    if kind == 'Av': return (Q*3600/(v/AVCV*KVCV))**2*1e5*rho/1000*KVFIX
    if kind == 'C':   # permanent loss: measured drop from the flow equation, less the exit recovery (K of the definition)
        b = Do/D; return (sqrt(1 - b**4*(1 - v*v))/(v*b*b) - 1)**2*rho*V*V/2
GPM = 0.003785411784/60
PSI = 0.45359237*9.80665/0.0254**2
KVCV = 3600*GPM*sqrt(1e5/PSI)
AVCV = GPM*sqrt(999.10329075702327/PSI)
KVFIX = 1.6e9/(2*1e5*3600**2/1000*(pi/4)**2)   # the documented 1.6E9 is a rounded constant

def step(kind, v, D, to, D2, f, L, Do):
    """re-express from (kind, v on D) to `to` on diameter D2 via K on D."""
    if kind == 'K': K = v
    elif kind == 'L/D': K = core.K_from_L_equiv(v, fd=f)
    elif kind == 'L': K = core.K_from_f(fd=f, L=v, D=D)
    elif kind == 'f': K = core.K_from_f(fd=v, L=L, D=D)
    elif kind == 'Kv': K = fittings.Kv_to_K(v, D)
    elif kind == 'Cv': K = fittings.Cv_to_K(v, D)
    elif kind == 'Av': K = fittings.Kv_to_K(control_valve.convert_flow_coefficient(v, 'Av', 'Kv'), D)
    else: K = flow_meter.discharge_coefficient_to_K(D=D, Do=Do, C=v)
    K2 = fittings.change_K_basis(K1=K, D1=D, D2=D2) if D2 != D else K
    if to == 'K': return K2
    if to == 'L/D': return core.L_equiv_from_K(K2, fd=f)
    if to == 'L': return core.L_from_K(K2, D2, fd=f)
    if to == 'f': return core.f_from_K(K=K2, L=L, D=D2)
    if to == 'Kv': return fittings.K_to_Kv(K2, D2)
    if to == 'Cv': return fittings.K_to_Cv(K2, D2)
    if to == 'Av': return control_valve.convert_flow_coefficient(fittings.K_to_Kv(K2, D2), 'Kv', 'Av')
    return flow_meter.K_to_discharge_coefficient(D=D2, Do=Do, K=K2)

KINDS = ['K', 'L/D', 'L', 'f', 'Kv', 'Cv', 'Av', 'C']
@P.sub(rec(K=lf(1e-2, 1e4), D=lf(1e-3, 5), rho=lf(.1, 2e4), Q=lf(1e-6, 1e2), f=lf(5e-3, .1), L=lf(1e-2, 1e3), bo=uf(.05, .6),
           chain=st.lists(st.tuples(pick(KINDS), lf(.5, 2, (1.,))), min_size=1, max_size=7)), n=1500)
def chain(ctx, K, D, rho, Q, f, L, bo, chain):
    want = K*rho*(Q/(pi/4*D*D))**2/2
    kind, v, d = 'K', K, D
    tol = 1e-8
    Do = 0.45*bo*D
    for to, fac in chain:
        d2 = d*fac
        d2 = min(max(d2, D/2), 2*D)
        if to == 'C' and d2 < Do*1.05: d2 = D
        v = step(kind, v, d, to, d2, f, L, Do); kind, d = to, d2
        ctx.label(to)
        if to == 'C': tol = max(tol, 1e-7)
        close(dP_kind(kind, v, d, rho, Q, f, L, Do), want, tol, 0, 'pressure drop as %s after %r' % (kind, chain))
    ctx.nontrivial(len(chain) > 1)
    back = step(kind, v, d, 'K', D, f, L, Do)
    close(back, K, tol, 0, 'K recovered after %r' % (chain,))

@P.sub(rec(K=lf(1e-6, 1e6), D1=lf(1e-4, 100), D2=lf(1e-4, 100), D3=lf(1e-4, 100)), n=500)
def change_basis(ctx, K, D1, D2, D3):
    c = fittings.change_K_basis
    close(c(K1=K, D1=D1, D2=D2), K*(D2/D1)**4, 1e-12, 0, 'change_K_basis')
    close(c(K1=c(K1=K, D1=D1, D2=D2), D1=D2, D2=D3), c(K1=K, D1=D1, D2=D3), 1e-12, 0, 'composition')
    close(c(K1=c(K1=K, D1=D1, D2=D2), D1=D2, D2=D1), K, 1e-12, 0, 'inverse')
    close(c(K, D1, D1), K, 1e-15, 0, 'identity')
    V1, V2 = 1/D1**2, 1/D2**2
    close(core.dP_from_K(c(K, D1, D2), 1000., V2), core.dP_from_K(K, 1000., V1), 1e-12, 0, 'same pressure drop')

# a meter's discharge coefficient, its loss coefficient and the measured/permanent pressure drop agree
@P.sub(rec(D=lf(.01, 2), beta=uf(.1, .9), C=uf(.4, .99), rho=lf(.1, 2e4), dP=lf(1, 1e6)), n=500)
def meter_K(ctx, D, beta, C, rho, dP):
    Do = beta*D; P1 = 1e8; P2 = P1 - dP; dP = P1 - P2
    m = flow_meter.flow_meter_discharge(D=D, Do=Do, P1=P1, P2=P2, rho=rho, C=C, expansibility=1.0)
    V = m/rho/(pi/4*D*D)
    K = flow_meter.discharge_coefficient_to_K(D=D, Do=Do, C=C)
    b4 = beta**4
    s = sqrt(1 - b4*(1 - C*C)); loss = (s - C*beta**2)/(s + C*beta**2)*dP
    close(core.dP_from_K(K, rho, V), loss, 1e-8, 1e-9*dP, 'permanent loss from K vs ISO 5167 loss of the measured drop')
    close(flow_meter.dP_orifice(D=D, Do=Do, P1=P1, P2=P2, C=C), loss, 1e-9, 0, 'dP_orifice')
