"""C06: conversion pairs invert each other, compose along any path and match their physical definitions."""
from math import sqrt, pi
import fluids
from fluids import core, control_valve, fittings, flow_meter, open_flow, friction
from vf.core import *
from vf.refs import reffer

P = Prop('C06', rule='Inputs log-uniform over their physical range plus special points (absolute zero, -40, 0, unit values); '
         'conversion paths are random walks over the scale graph. Non-trivial: every distinct input.')
r = reffer(P, _n=120, _rtol=1e-11)
X = lf(1e-6, 1e6)

# -- temperature: exact affine maps from kelvin ------------------------------------------------
TO = {'K': lambda K: K, 'C': lambda K: K - 273.15, 'F': lambda K: 1.8*(K - 273.15) + 32, 'R': lambda K: 1.8*K}
FROM = {'K': lambda x: x, 'C': lambda x: x + 273.15, 'F': lambda x: (x - 32)/1.8 + 273.15, 'R': lambda x: x/1.8}
SC = 'KCFR'
@P.sub(rec(x=inear(uf(-1e4, 1e5), [0., -40., 32., 273.15, 491.67, 459.67, -273.15, -459.67, 1e-3, 100., 212.]), path=st.lists(pick(list(SC)), min_size=2, max_size=8)), n=1500)
def temperature_path(ctx, x, path):
    p = [path[0]]
    for s in path[1:]:
        if s != p[-1]: p.append(s)
    if len(p) < 2: p.append('K' if p[0] != 'K' else 'F')
    K = FROM[p[0]](x); v = x
    for a, b in zip(p, p[1:]):
        v = getattr(core, a + '2' + b)(v)
        close(v, TO[b](K), 1e-12, 3e-10*1 + 1e-14*abs(x)*len(p), '%s->%s on path %s from %r' % (a, b, p, x))
    ctx.label('len%d' % len(p))

# -- nu / mu ------------------------------------------------------------------------------------
@P.sub(rec(rho=lf(1e-3, 2e4), v=lf(1e-9, 1e3)), n=200)
def nu_mu(ctx, rho, v):
    nu = core.nu_mu_converter(rho, mu=v); close(nu, v/rho, 1e-12, 0, 'nu from mu')
    close(core.nu_mu_converter(rho, nu=nu), v, 1e-12, 0, 'mu back')
    close(core.nu_mu_converter(rho, nu=v), v*rho, 1e-12, 0, 'mu from nu')
    raises(ValueError, core.nu_mu_converter, rho)
    raises(ValueError, core.nu_mu_converter, rho, mu=v, nu=v/rho)

# -- pressure, head, K ---------------------------------------------------------------------------
@P.sub(rec(p=uf(-1e6, 1e8, (0.,)), rho=lf(1e-3, 2e4), g=lf(.01, 100), dg=pick([0, 1]), K=lf(1e-6, 1e6), V=lf(1e-4, 1e3)), n=400)
def pressure_head(ctx, p, rho, g, dg, K, V):
    k = {} if dg else {'g': g}; gg = 9.80665 if dg else g
    h = core.head_from_P(p, rho, **k); close(h, p/(rho*gg), 1e-12, 0, 'head_from_P')
    close(core.P_from_head(h, rho, **k), p, 1e-12, 0, 'P back')
    close(core.P_from_head(p, rho, **k), p*rho*gg, 1e-12, 0, 'P_from_head')
    dP = core.dP_from_K(K, rho, V); close(dP, K*rho*V*V/2, 1e-12, 0, 'dP_from_K')
    hk = core.head_from_K(K, V, **k); close(hk, K*V*V/2/gg, 1e-12, 0, 'head_from_K')
    close(core.head_from_P(dP, rho, **k), hk, 1e-12, 0, 'head via dP')

@P.sub(rec(K=lf(1e-6, 1e6), L=lf(1e-4, 1e5), D=lf(1e-5, 1e2), fd=opt(lf(1e-4, 1))), n=400)
def K_f_L(ctx, K, L, D, fd):
    kw = {} if fd is None else {'fd': fd}; f = 0.015 if fd is None else fd
    close(core.f_from_K(K=K, L=L, D=D), K*D/L, 1e-12, 0, 'f_from_K')
    close(core.K_from_f(fd=core.f_from_K(K=K, L=L, D=D), L=L, D=D), K, 1e-12, 0, 'K_from_f(f_from_K)')
    close(core.K_from_f(fd=f, L=L, D=D), f*L/D, 1e-12, 0, 'K_from_f')
    LD = core.L_equiv_from_K(K, **kw); close(LD, K/f, 1e-12, 0, 'L_equiv_from_K')
    close(core.K_from_L_equiv(LD, **kw), K, 1e-12, 0, 'K_from_L_equiv back')
    Lp = core.L_from_K(K, D, **kw); close(Lp, K*D/f, 1e-12, 0, 'L_from_K')
    close(Lp, LD*D, 1e-12, 0, 'L_from_K vs equivalent length')
    close(core.K_from_f(fd=f, L=Lp, D=D), K, 1e-12, 0, 'K of that length')

# -- flow coefficients ----------------------------------------------------------------------------
GPM = 0.003785411784/60
PSI = 0.45359237*9.80665/0.0254**2
KVCV = 3600*GPM*sqrt(1e5/PSI)          # Kv per Cv
AVCV = GPM*sqrt(999.10329075702327/PSI)  # Av per Cv: Q = Av sqrt(dP/rho), water at 15 C
SCALE = {'Cv': 1.0, 'Kv': KVCV, 'Av': AVCV}
@P.sub(rec(x=lf(1e-6, 1e6), path=st.lists(pick(['Cv', 'Kv', 'Av']), min_size=2, max_size=7)), n=600)
def flow_coefficient_path(ctx, x, path):
    v = x
    for a, b in zip(path, path[1:]):
        v = control_valve.convert_flow_coefficient(v, a, b)
        want = x/SCALE[path[0]]*SCALE[b]
        close(v, want, 2e-9, 0, 'convert_flow_coefficient %s from %r' % (path, x))
    if path[-1] == path[0]: close(v, x, 1e-13*len(path)*4, 0, 'closed path %s' % path)
    else: close(control_valve.convert_flow_coefficient(v, path[-1], path[0]), x, 1e-13*len(path)*4, 0, 'closing %s' % path)
@P.sub(rec(x=X, s=pick(['cv', 'Qn', 'Cg', '', 'KV', 'K']), o=pick(['Cv', 'Kv', 'Av'])), n=60)
def flow_coefficient_bad_scale(ctx, x, s, o):
    raises(NotImplementedError, control_valve.convert_flow_coefficient, x, s, o)
    raises(NotImplementedError, control_valve.convert_flow_coefficient, x, o, s)
@P.sub(rec(x=lf(1e-6, 1e6), D=lf(1e-4, 10)), n=500)
def Kv_Cv_K(ctx, x, D):
    f = fittings
    close(f.Kv_to_Cv(x), x/KVCV, 2e-9, 0, 'Kv_to_Cv'); close(f.Cv_to_Kv(x), x*KVCV, 2e-9, 0, 'Cv_to_Kv')
    close(f.Cv_to_Kv(f.Kv_to_Cv(x)), x, 1e-13, 0, 'Kv->Cv->Kv')
    K = f.Kv_to_K(x, D); close(K, 1.6e9*D**4/x**2, 1e-12, 0, 'Kv_to_K')
    close(f.K_to_Kv(K, D), x, 1e-12, 0, 'Kv->K->Kv')
    close(f.Kv_to_K(f.K_to_Kv(x, D), D), x, 1e-12, 0, 'K->Kv->K')
    close(f.Cv_to_K(x, D), 1.6e9*D**4/(x*KVCV)**2, 1e-8, 0, 'Cv_to_K')
    close(f.K_to_Cv(f.Cv_to_K(x, D), D), x, 1e-12, 0, 'Cv->K->Cv')
    close(f.Cv_to_K(f.K_to_Cv(x, D), D), x, 1e-12, 0, 'K->Cv->K')
    close(f.K_to_Cv(x, D), f.Kv_to_Cv(f.K_to_Kv(x, D)), 1e-12, 0, 'K->Cv via Kv')
    # physics: Kv m3/h of water (1000 kg/m3) at 1 bar
    dP = 1e5; Q = x/3600; V = Q/(pi/4*D*D)
    close(dP/(1000*V*V/2), K, 1e-3, 0, 'definition of Kv')

# -- discharge coefficient -------------------------------------------------------------------------
@P.sub(rec(D=lf(1e-3, 10), beta=uf(.02, .98), C=uf(.3, .9999, (0.6,))), n=600)
def discharge_coefficient(ctx, D, beta, C):
    Do = D*beta
    K = flow_meter.discharge_coefficient_to_K(D=D, Do=Do, C=C)
    b4 = beta**4
    ref = (sqrt(1 - b4*(1 - C*C))/(C*beta*beta) - 1)**2
    close(K, ref, 1e-9, 1e-12, 'discharge_coefficient_to_K')
    if K > 1e-4:
        close(flow_meter.K_to_discharge_coefficient(D=D, Do=Do, K=K), C, 1e-9, 0, 'C back')
@P.sub(rec(D=lf(1e-3, 10), beta=uf(.02, .98), K=lf(1e-3, 1e6)), n=400)
def discharge_coefficient_inv(ctx, D, beta, K):
    C = flow_meter.K_to_discharge_coefficient(D=D, Do=D*beta, K=K)
    close(C, sqrt((1 - beta**4)/((2*sqrt(K) + K)*beta**4)), 1e-10, 0, 'K_to_discharge_coefficient')
    # the other root of the square is not reached: sqrt(K) + 1 must equal the root expression
    close(flow_meter.discharge_coefficient_to_K(D=D, Do=D*beta, C=C), K, 1e-8, 0, 'K back')

# -- channel / transmission --------------------------------------------------------------------------
@P.sub(rec(n=lf(1e-3, 1), Rh=lf(1e-4, 100)), n=300)
def manning_chezy(ctx, n, Rh):
    C = open_flow.n_Manning_to_C_Chezy(n, Rh); close(C, Rh**(1/6)/n, 1e-12, 0, 'C from n')
    close(open_flow.C_Chezy_to_n_Manning(C, Rh), n, 1e-12, 0, 'n back')
    close(open_flow.C_Chezy_to_n_Manning(n, Rh), Rh**(1/6)/n, 1e-12, 0, 'n from C')
@P.sub(rec(x=lf(1e-5, 1e5)), n=200)
def transmission_factor(ctx, x):
    F = friction.transmission_factor(fd=x); close(F, 2/sqrt(x), 1e-12, 0, 'F'); close(friction.transmission_factor(F=F), x, 1e-12, 0, 'fd back')
    close(friction.transmission_factor(F=x), 4/x**2, 1e-12, 0, 'fd'); raises(ValueError, friction.transmission_factor)
