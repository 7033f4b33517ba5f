"""C12: pressure-drop components."""
from math import sqrt, log, exp, pi, sin
from scipy.integrate import quad
import fluids
from fluids import friction, two_phase
from vf.core import *
from vf.refs import reffer
from .c09 import colebrook, REF as FREF

P = Prop('C12', rule='Mass flow, pipe, inclination (-90..90), densities, qualities and voidages drawn over their full range; optional arguments present or absent. Non-trivial: every distinct input.',
         assumptions=['dP_dL and the returned value of the *_dz_acceleration functions are signed pressure gradients (the sign convention the implementation and its tests use)'])
r = reffer(P, _n=250, _rtol=1e-11)
G = 9.80665
M, D, RL, RG = lf(1e-4, 1e3), lf(1e-3, 5), lf(100, 2e4), lf(1e-2, 99)
ANG = uf(-90, 90, (0., 90., -90.))
def rad(a): return a*pi/180
r('one_phase_dP_gravitational', lambda angle, rho, L=1., g=G: rho*g*L*sin(rad(angle)), angle=ANG, rho=RL, L=opt(lf(.01, 1e4)), g=opt(lf(.1, 50)))
def acc(m, D, rho_o, rho_i, D_i=None):
    Di = D if D_i is None else D_i
    vi, vo = m/rho_i/(pi/4*Di**2), m/rho_o/(pi/4*D**2)
    return (rho_o + rho_i)/2*(vo**2 - vi**2)/2
@P.sub(rec(m=M, D=D, rho_o=lf(.01, 2e4), f=lf(.2, 5, (1.,)), fd=opt(lf(.3, 3))), n=400)
def one_phase_dP_acceleration(ctx, m, D, rho_o, f, fd):
    rho_i = rho_o*f; kw = {} if fd is None else {'D_i': D*fd}
    vi, vo = m/rho_i/(pi/4*(D*(fd or 1))**2), m/rho_o/(pi/4*D**2)
    sc = (rho_o + rho_i)/4*(vi*vi + vo*vo)
    got = friction.one_phase_dP_acceleration(m=m, D=D, rho_o=rho_o, rho_i=rho_i, **kw)
    close(got, acc(m, D, rho_o, rho_i, **kw), 1e-11, 1e-13*sc, 'one_phase_dP_acceleration')
    # reversing the flow direction reverses the sign
    back = friction.one_phase_dP_acceleration(m=m, D=D*(fd or 1), rho_o=rho_i, rho_i=rho_o, D_i=D)
    close(got, -back, 1e-10, 1e-12*sc, 'reversed')
r('one_phase_dP_dz_acceleration', lambda m, D, rho, dv_dP, dP_dL, dA_dL: -(m/(pi/4*D*D))**2*(dP_dL*dv_dP - dA_dL/(rho*pi/4*D*D)), m=M, D=D, rho=RL, dv_dP=uf(-1e-4, 0), dP_dL=uf(-1e6, 1e6), dA_dL=uf(-.1, .1), _atol=1e-9)
def hom(x, rl, rg): return 1/(1 + (1 - x)/x*rg/rl) if x else 0.
def dzacc(m, D, x, rhol, rhog, dv_dP_l, dv_dP_g, dx_dP, dP_dL, dA_dL):
    A = pi/4*D*D; Gm = m/A
    a = hom(x, rhol, rhog); rh = a*rhog + (1 - a)*rhol
    return -Gm**2*((1/rhog - 1/rhol)*dP_dL*dx_dP + dP_dL*(x*dv_dP_g + (1 - x)*dv_dP_l) - dA_dL/(rh*A))
r('two_phase_dP_dz_acceleration', dzacc, m=M, D=D, x=uf(1e-6, 1), rhol=RL, rhog=RG, dv_dP_l=uf(-1e-7, 0), dv_dP_g=uf(-1e-4, 0), dx_dP=uf(-1e-5, 1e-5), dP_dL=uf(-1e6, 1e6), dA_dL=uf(-.1, .1), _rtol=1e-9, _atol=1e-7)
def acc2(m, D, xi, xo, alpha_i, alpha_o, rho_li, rho_gi, rho_lo=None, rho_go=None):
    lo, go = rho_lo or rho_li, rho_go or rho_gi
    f = lambda x, a, l, g: (1 - x)**2/(l*(1 - a)) + x*x/(g*a)
    return (m/(pi/4*D*D))**2*(f(xo, alpha_o, lo, go) - f(xi, alpha_i, rho_li, rho_gi))
X, AL = uf(0, 1, (0., 1.)), uf(.001, .999, (.5,))
@P.sub(rec(m=M, D=D, xi=X, xo=X, alpha_i=AL, alpha_o=AL, rho_li=RL, rho_gi=RG, rho_lo=opt(RL), rho_go=opt(RG)), n=400)
def two_phase_dP_acceleration(ctx, **k):
    k = {a: b for a, b in k.items() if b is not None}
    sc = (k['m']/(pi/4*k['D']**2))**2*(1/(k['rho_li']*.001) + 1/(k['rho_gi']*.001))
    close(two_phase.two_phase_dP_acceleration(**k), acc2(**k), 1e-11, 1e-14*sc, 'two_phase_dP_acceleration')
def grav2(angle, z, alpha_i, rho_li, rho_gi, alpha_o=None, rho_lo=None, rho_go=None, g=G):
    ao = alpha_i if alpha_o is None else alpha_o
    mi = alpha_i*rho_gi + (1 - alpha_i)*rho_li; mo = ao*(rho_go or rho_gi) + (1 - ao)*(rho_lo or rho_li)
    return g*z*sin(rad(angle))*(mi + mo)/2
A01 = uf(0, 1, (0., 1.))
r('two_phase_dP_gravitational', grav2, _n=500, angle=ANG, z=lf(.01, 1e4), alpha_i=A01, rho_li=RL, rho_gi=RG, alpha_o=opt(inear(A01, [0.0], 4)), rho_lo=opt(RL), rho_go=opt(RG), g=opt(lf(.1, 50)))
r('two_phase_dP_dz_gravitational', lambda angle, alpha, rhol, rhog, g=G: g*sin(rad(angle))*(alpha*rhog + (1 - alpha)*rhol), angle=ANG, alpha=A01, rhol=RL, rhog=RG, g=opt(lf(.1, 50)))

@P.sub(rec(m=M, D=lf(.01, 2), P1=uf(1e5, 5e6), dP=uf(-3e4, 3e4), v0=lf(1e-3, 1), n=uf(.3, 1.5)), n=80)
def dz_acceleration_integrates(ctx, m, D, P1, dP, v0, n):
    """along v = v0 (P1/P)^n, constant area: -integral of (dP/dz)_acc over the length = G^2 (v_out - v_in), the finite form."""
    L = 10.; P2 = P1 - dP; g = -dP/L
    Pz = lambda z: P1 + g*z
    v = lambda p: v0*(P1/p)**n
    I = quad(lambda z: friction.one_phase_dP_dz_acceleration(m=m, D=D, rho=1/v(Pz(z)), dv_dP=-n*v(Pz(z))/Pz(z), dP_dL=g, dA_dL=0.), 0, L)[0]
    Gm = m/(pi/4*D*D)
    want = Gm**2*(v(P2) - v0)
    close(-I, want, 1e-7, 1e-9*Gm**2*v0, 'integral of the differential acceleration')
    fin = friction.one_phase_dP_acceleration(m=m, D=D, rho_o=1/v(P2), rho_i=1/v0)
    q = v(P2)/v0
    # the finite form uses the mean density: second order in the density change
    close(fin, want, (sqrt(q) - 1/sqrt(q))**2/2 + 1e-9, 1e-9*Gm**2*v0, 'finite acceleration form')
    t = two_phase.two_phase_dP_acceleration(m=m, D=D, xi=.3, xo=.3, alpha_i=hom(.3, 1/v0, 1/v0), alpha_o=hom(.3, 1/v(P2), 1/v(P2)), rho_li=1/v0, rho_gi=1/v0, rho_lo=1/v(P2), rho_go=1/v(P2))
    close(t, want, 1e-8, 1e-10*Gm**2*v0, 'two-phase finite form of two equal phases')
@P.sub(rec(m=M, D=lf(.01, 2), x=uf(.01, .99), rhol=RL, rhog=RG, dA=uf(-1e-3, 1e-3), dPdL=uf(-1e5, 0.), bl=uf(-1e-9, 0), bg=uf(-1e-6, 0), dx=uf(-1e-6, 1e-6)), n=300)
def two_phase_reduces(ctx, m, D, x, rhol, rhog, dA, dPdL, bl, bg, dx):
    f1, f2 = friction.one_phase_dP_dz_acceleration, two_phase.two_phase_dP_dz_acceleration
    close(f2(m, D, 0., rhol, rhog, bl, bg, 0., dPdL, dA), f1(m, D, rhol, bl, dPdL, dA), 1e-11, 1e-12, 'liquid limit')
    close(f2(m, D, 1., rhol, rhog, bl, bg, 0., dPdL, dA), f1(m, D, rhog, bg, dPdL, dA), 1e-11, 1e-12, 'gas limit')
    close(f2(m, D, x, rhol, rhol, bl, bl, dx, dPdL, dA), f1(m, D, rhol, bl, dPdL, dA), 1e-9, 1e-12, 'equal phases')
    # homogeneous mixture v = x vg + (1-x) vl: the gradient is G^2 dv/dL
    Gm = m/(pi/4*D*D)
    t = (dx*(1/rhog - 1/rhol), x*bg, (1 - x)*bl)
    close(f2(m, D, x, rhol, rhog, bl, bg, dx, dPdL, 0.), -Gm*Gm*dPdL*sum(t), 1e-10, 1e-11*Gm*Gm*abs(dPdL)*sum(map(abs, t)), 'homogeneous acceleration gradient')
    for a, rho in ((0., rhol), (1., rhog)):
        close(two_phase.two_phase_dP_dz_gravitational(angle=37., alpha=a, rhol=rhol, rhog=rhog), friction.one_phase_dP_gravitational(angle=37., rho=rho), 1e-12, 0, 'gravity single-phase limit')
        close(two_phase.two_phase_dP_gravitational(angle=-12., z=3., alpha_i=a, rho_li=rhol, rho_gi=rhog), friction.one_phase_dP_gravitational(angle=-12., rho=rho, L=3.), 1e-12, 0, 'finite gravity limit')
@P.sub(rec(z=lf(.1, 100), angle=ANG, a0=uf(0, 1), a1=uf(0, 1), rl=RL, rg=RG), n=80)
def gravity_integrates(ctx, z, angle, a0, a1, rl, rg):
    I = quad(lambda s: two_phase.two_phase_dP_dz_gravitational(angle=angle, alpha=a0 + (a1 - a0)*s/z, rhol=rl, rhog=rg), 0, z)[0]
    close(two_phase.two_phase_dP_gravitational(angle=angle, z=z, alpha_i=a0, rho_li=rl, rho_gi=rg, alpha_o=a1), I, 1e-8, 1e-9, 'gravity integral')

@P.sub(rec(Re=lf(1., 1e8, (2040.,)), rho=lf(.01, 2e4), mu=lf(1e-6, 1), D=lf(1e-3, 5), eD=inear(lf(1e-7, .05), [0., None], 3), L=opt(lf(.01, 1e5)), meth=inear(st.none(), sorted(FREF) + ['Clamond', 'Colebrook', 'laminar'], 2)), n=1200)
def one_phase_dP(ctx, Re, rho, mu, D, eD, L, meth):
    if meth in ('Papaevangelo_2010', 'Rao_Kumar_2007', 'Wood_1966', 'Fang_2011') and not eD: meth = None
    m = Re*mu*pi*D/4
    Re = 4*m/(pi*D*mu)
    if abs(Re/2040 - 1) < 1e-9: raise SkipCase
    kw = {}
    if eD is not None: kw['roughness'] = eD*D
    if L is not None: kw['L'] = L
    if meth: kw['Method'] = meth
    e = eD or 0.
    fd = 64/Re if Re < 2040 or meth == 'laminar' else colebrook(Re, e) if meth in (None, 'Clamond', 'Colebrook') else FREF[meth](Re, e)
    V = m/rho/(pi/4*D*D)
    got = friction.one_phase_dP(m=m, rho=rho, mu=mu, D=D, **kw)
    close(got, fd*(1. if L is None else L)/D*rho*V*V/2, 1e-8, 0, 'one_phase_dP(Method=%r)' % meth)
    close(friction.one_phase_dP(m=m, rho=rho, mu=mu, D=D, **{**kw, 'L': 7.*(L or 1.)}), 7*got, 1e-12, 0, 'proportional to length')
    ctx.label('laminar' if Re < 2040 else 'turbulent')
