"""C28: void fraction, mixture density and mixture viscosity."""
from math import sqrt, log, exp, pi, sin, cos, radians
import fluids
from fluids import two_phase_voidage as tv
from vf.core import *
from vf.refs import reffer, dropn

P = Prop('C28', rule='Quality in (0,1) with points near both ends, density ratio 1.001-5000, viscosity ratio 0.5-1000, mass flux 1-8000, diameters 20 um-1 m placed on both sides of each branch. Non-trivial: every distinct state.',
         assumptions=['the printed exponent P/Patm in Woldesemayat_Ghajar is a misprint of Patm/P (publication and implementation agree)'])
r = reffer(P, _n=250, _rtol=1e-10)
G0 = 9.80665
X = inear(uf(.001, .999), [1e-6, 1e-3, .999, .5, .999999], 6)
RL, RG, ML, MG = uf(200, 3000), lf(.02, 199), lf(5e-5, .1), lf(3e-6, 4e-5)
Mm, D, SIG = lf(1e-4, 50), lf(1e-3, 1), lf(1e-4, .1)
def h(x, rl, rg): return x*rl/(x*rl + (1 - x)*rg)
def slip(x, rl, rg, A=1., p=1., q=1., r_=0., m=1.): return 1/(1 + A*((1 - x)/x)**p*(rg/rl)**q*m**r_)
r('Thom', lambda x, rhol, rhog, mul, mug: slip(x, rhol, rhog, q=.89, m=mul/mug, r_=.18), x=X, rhol=RL, rhog=RG, mul=ML, mug=MG)
r('Zivi', lambda x, rhol, rhog: slip(x, rhol, rhog, q=2/3), x=X, rhol=RL, rhog=RG)
def smith(x, rhol, rhog, K=.4):
    k = K*(1 - x)/x
    return slip(x, rhol, rhog, A=K + (1 - K)*sqrt((rhol/rhog + k)/(1 + k)))
r('Smith', smith, x=X, rhol=RL, rhog=RG)
r('Fauske', lambda x, rhol, rhog: slip(x, rhol, rhog, q=.5), x=X, rhol=RL, rhog=RG)
r('Chisholm_voidage', lambda x, rhol, rhog: slip(x, rhol, rhog, A=sqrt(1 - x + x*rhol/rhog)), x=X, rhol=RL, rhog=RG)
r('Turner_Wallis', lambda x, rhol, rhog, mul, mug: slip(x, rhol, rhog, p=.72, q=.4, m=mul/mug, r_=.08), x=X, rhol=RL, rhog=RG, mul=ML, mug=MG)
r('homogeneous', lambda x, rhol, rhog: h(x, rhol, rhog), x=inear(X, [0., 1.], 4), rhol=RL, rhog=RG)
r('Chisholm_Armand', lambda x, rhol, rhog: h(x, rhol, rhog)/(h(x, rhol, rhog) + sqrt((1 - x)*rhog/(x*rhol + (1 - x)*rhog))), x=X, rhol=RL, rhog=RG)
r('Armand', lambda x, rhol, rhog: .833*h(x, rhol, rhog), x=inear(X, [0., 1.], 4), rhol=RL, rhog=RG)
r('Nishino_Yamazaki', lambda x, rhol, rhog: 1 - sqrt((1 - x)/x*rhog/rhol*h(x, rhol, rhog)), x=X, rhol=RL, rhog=RG, _atol=1e-12)
def rtp(x, rl, rg): return 1/(x/rg + (1 - x)/rl)
def guzhov(x, rhol, rhog, m, D):
    V = m/(pi/4*D*D)/rtp(x, rhol, rhog)
    return .81*(1 - exp(-2.2*V/sqrt(G0*D)))*h(x, rhol, rhog)
r('Guzhov', guzhov, x=X, rhol=RL, rhog=RG, m=Mm, D=D, _atol=1e-13)
def kawahara(x, rhol, rhog, D):
    a = h(x, rhol, rhog)
    if D > 250e-6: return .833*a
    c1, c2 = (.03, .97) if D > 75e-6 else (.02, .98)
    return c1*sqrt(a)/(1 - c2*sqrt(a))
r('Kawahara', kawahara, x=X, rhol=RL, rhog=RG, D=lf(2e-5, 2e-3, (250e-6, 75e-6)), _n=400, _rtol=1e-9, _label=lambda D, **k: 'D>250' if D > 250e-6 else 'D>75' if D > 75e-6 else 'D<75')
def xtt(x, rl, rg, ml, mg): return ((1 - x)/x)**.9*sqrt(rg/rl)*(ml/mg)**.1
def LMX(x, rhol, rhog, mul, mug, pow_x=.9, pow_rho=.5, pow_mu=.1, n=None):
    if n is not None: pow_x, pow_mu = (2 - n)/2, n/2
    return ((1 - x)/x)**pow_x*(rhog/rhol)**pow_rho*(mul/mug)**pow_mu
r('Lockhart_Martinelli_Xtt', LMX, x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, pow_x=opt(uf(.5, 1.2)), pow_rho=opt(uf(.2, 1)), pow_mu=opt(uf(.01, .5)), n=opt(uf(0, 1, (0., .25))), _n=400)
r('Baroczy', lambda x, rhol, rhog, mul, mug: slip(x, rhol, rhog, p=.74, q=.65, m=mul/mug, r_=.13), x=X, rhol=RL, rhog=RG, mul=ML, mug=MG)
MS = lf(1e-5, 50)
def tandon(x, rhol, rhog, mul, mug, m, D):
    Re = 4*m/(pi*D*mul)
    if abs(Re/1125 - 1) < 1e-9: raise SkipCase
    X_ = xtt(x, rhol, rhog, mul, mug); F = .15*(1/X_ + 2.85/X_**.476)
    return 1 - 1.928*Re**-.315/F + .9293*Re**-.63/F**2 if Re < 1125 else 1 - .38*Re**-.088/F + .0361*Re**-.176/F**2
@P.sub(rec(x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, Re=lf(1, 1e6, (1125.,)), D=D), n=400)
def Tandon_Varma_Gupta(ctx, Re, **k):
    k['m'] = Re*pi*k['D']*k['mul']/4
    w = tandon(**k); sc = 1 + abs(w) + 4/(.15*(1/xtt(k['x'], k['rhol'], k['rhog'], k['mul'], k['mug'])))**2*Re**-.6
    close(tv.Tandon_Varma_Gupta(**k), w, 1e-10, 1e-12*sc, 'Tandon_Varma_Gupta'); ctx.label('Re<1125' if Re < 1125 else 'Re>1125')
@P.sub(rec(x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, Re=lf(1, 1e6), D=D), n=300)
def Harms(ctx, Re, **k):
    k['m'] = Re*pi*k['D']*k['mul']/4/(1 - k['x'])
    X_ = xtt(k['x'], k['rhol'], k['rhog'], k['mul'], k['mug'])
    b = 10.06*Re**-.875*(1.74 + .104*sqrt(Re))**2*(1.376 + 7.242/X_**1.655)**-.5
    close(tv.Harms(**k), (1 - b)**2, 1e-9, 1e-11*(1 + b*b), 'Harms')
def domanski(x, rhol, rhog, mul, mug):
    X_ = xtt(x, rhol, rhog, mul, mug)
    if abs(X_/10 - 1) < 1e-9: raise SkipCase
    return (1 + X_**.8)**-.378 if X_ < 10 else .823 - .157*log(X_)
r('Domanski_Didion', domanski, x=inear(X, [.01, .02, .005, .001, 1e-4], 2), rhol=RL, rhog=RG, mul=ML, mug=MG, _n=400, _atol=1e-12, _label=lambda x, rhol, rhog, mul, mug: 'Xtt<10' if xtt(x, rhol, rhog, mul, mug) < 10 else 'Xtt>10')

FT = lf(1e-3, 1e3, (.01032, .044))
def ft(x, rhog, m, D, g): return sqrt((m/(pi/4*D*D))**2*x**3/((1 - x)*rhog**2*g*D))
@P.sub(rec(x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, Ft=FT, D=D, g=opt(lf(.5, 50))), n=500)
def Froude_rate_models(ctx, x, rhol, rhog, mul, mug, Ft, D, g):
    g_ = g or G0
    m = Ft*sqrt((1 - x)*g_*D/x**3)*rhog*pi/4*D*D
    kw = {} if g is None else {'g': g}
    F = ft(x, rhog, m, D, g_); L = log(F)
    if abs(F/.01032 - 1) > 1e-9:
        w = 0. if F < .01032 else 1 - exp(-1 - .3*L - .0328*L*L)
        close(tv.Graham(x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, m=m, D=D, **kw), w, 1e-9, 1e-11, 'Graham')
    if abs(F/.044 - 1) > 1e-9:
        w = h(x, rhol, rhog) if F < .044 else 1.045 - exp(-1 - .342*L - .0268*L*L + .00597*L**3)
        close(tv.Kopte_Newell_Chato(x=x, rhol=rhol, rhog=rhog, m=m, D=D, **kw), w, 1e-9, 1e-11*(1+abs(w)), 'Kopte_Newell_Chato')
    close(tv.Yashar(x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, m=m, D=D, **kw), (1 + 1/F + xtt(x, rhol, rhog, mul, mug))**-.321, 1e-10, 0, 'Yashar')
    ctx.label('Ft<.0103' if F < .01032 else 'Ft<.044' if F < .044 else 'Ft>.044')
r('Huq_Loth', lambda x, rhol, rhog: 1 - 2*(1 - x)**2/(1 - 2*x + sqrt(1 + 4*x*(1 - x)*(rhol/rhog - 1))), x=uf(.001, .999), rhol=RL, rhog=RG, _rtol=1e-7)
def drift(C0, v):
    def f(x, rhol, rhog, m, D, g=G0, **k):
        G = m/(pi/4*D*D)
        c = C0(x, rhol, rhog, G, D, g, k); vg = v(x, rhol, rhog, G, D, g, k)
        return x/rhog/(c*(x/rhog + (1 - x)/rhol) + vg/G)
    return f
b4 = lambda x, rl, s, g, rg: 1.18*(1 - x)/sqrt(rl)*(g*s*(rl - rg))**.25
gg = opt(lf(.5, 50))
S = dict(x=X, rhol=RL, rhog=RG, sigma=SIG, m=Mm, D=D, g=gg)
r('Steiner', drift(lambda x, rl, rg, G, D, g, k: 1 + .12*(1 - x), lambda x, rl, rg, G, D, g, k: b4(x, rl, k['sigma'], g, rg)), **S)
r('Rouhani_1', drift(lambda x, rl, rg, G, D, g, k: 1 + .2*(1 - x), lambda x, rl, rg, G, D, g, k: b4(x, rl, k['sigma'], g, rg)), **S)
r('Rouhani_2', drift(lambda x, rl, rg, G, D, g, k: 1 + .2*(1 - x)*(g*D)**.25*sqrt(rl/G), lambda x, rl, rg, G, D, g, k: b4(x, rl, k['sigma'], g, rg)), **S)
r('Nicklin_Wilkes_Davidson', drift(lambda *a: 1.2, lambda x, rl, rg, G, D, g, k: .35*sqrt(g*D)), x=X, rhol=RL, rhog=RG, m=Mm, D=D, g=gg)
r('Gregory_Scott', lambda x, rhol, rhog: h(x, rhol, rhog)/1.19, x=X, rhol=RL, rhog=RG)
def dixc(x, rl, rg, G, D, g, k):
    vg, vl = G*x/rg, G*(1 - x)/rl
    return vg/(vg + vl)*(1 + (vl/vg)**((rg/rl)**.1))
r('Dix', drift(dixc, lambda x, rl, rg, G, D, g, k: 2.9*(g*k['sigma']*(rl - rg)/rl**2)**.25), **S)
r('Sun_Duffey_Peng', drift(lambda x, rl, rg, G, D, g, k: 1/(.82 + .18*k['P']/k['Pc']), lambda x, rl, rg, G, D, g, k: 1.41*(g*k['sigma']*(rl - rg)/rl**2)**.25), P=lf(1e4, 5e6), Pc=lf(1e6, 2e7), **S)
def xf(x, rhol, rhog, m, D, g=G0):
    Fr = (m/(pi/4*D*D)/rhol)**2/(g*D)
    return 1/(1 + (1 + 2*Fr**-.2*h(x, rhol, rhog)**3.5)*(1 - x)/x*rhog/rhol)
r('Xu_Fang_voidage', xf, x=X, rhol=RL, rhog=RG, m=Mm, D=D, g=gg)
def wg(x, rhol, rhog, sigma, m, D, P, angle=0., g=G0):
    A = pi/4*D*D; vg, vl = m*x/rhog/A, m*(1 - x)/rhol/A
    t = radians(angle)
    return vg/(vg*(1 + (vl/vg)**((rhog/rhol)**.1)) + 2.9*(g*D*sigma*(1 + cos(t))*(rhol - rhog)/rhol**2)**.25*(1.22 + 1.22*sin(t))**(101325./P))
r('Woldesemayat_Ghajar', wg, P=lf(5e4, 2e7), angle=opt(uf(-90, 90, (0., 90., 45., -30.))), **S)

# --- slip-ratio models: between 0 and 1, rising with quality, limits, never above no-slip
SLIP = ['Thom', 'Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Turner_Wallis', 'homogeneous', 'Baroczy', 'Huq_Loth']
@P.sub(rec(name=pick(SLIP), x=uf(1e-4, .9), dx=uf(.01, .0999), rhol=RL, rhog=RG, mul=ML, mug=MG), n=500)
def slip_models(ctx, name, x, dx, rhol, rhog, mul, mug):
    k = dict(rhol=rhol, rhog=rhog)
    if name in ('Thom', 'Turner_Wallis', 'Baroczy'): k.update(mul=mul, mug=mug)
    f = getattr(tv, name)
    a, b = f(x=x, **k), f(x=x + dx, **k)
    ensure(0 < a < b < 1, '%s not increasing inside (0,1): %r, %r', name, a, b)
    ensure(f(x=1 - 1e-12, **k) > 1 - 1e-2 if name != 'Huq_Loth' else True, '%s: all-vapor limit', name)
    ensure(f(x=1e-16, **k) < 1e-2, '%s: all-liquid limit', name)
    if name in ('Zivi', 'Smith', 'Fauske', 'Chisholm_voidage'):
        ensure(a <= tv.homogeneous(x, rhol, rhog)*(1 + 1e-12), '%s exceeds the no-slip voidage', name)
    ctx.label(name)

# --- mixture density / experimental voidage
@P.sub(rec(alpha=uf(0, 1, (0., 1.)), rhol=RL, rhog=RG, x=uf(0, 1, (0., 1.))), n=300)
def density(ctx, alpha, rhol, rhog, x):
    rho = tv.density_two_phase(alpha, rhol, rhog)
    close(rho, alpha*rhog + (1 - alpha)*rhol, 1e-12, 0, 'density_two_phase')
    close(tv.two_phase_voidage_experimental(rho, rhol, rhog), alpha, 1e-9, 1e-10 if rhol/rhog > 1.1 else 1e-6, 'two_phase_voidage_experimental inverts density_two_phase')
    # the homogeneous model's mixture density is the specific-volume average
    if 0 < x < 1:
        close(tv.density_two_phase(tv.homogeneous(x, rhol, rhog), rhol, rhog), rtp(x, rhol, rhog), 1e-9, 0, 'homogeneous density')

X01 = uf(0, 1, (0., 1.))
V = dict(x=X01, mul=ML, mug=MG)
def bw(x, mul, mug, rhol, rhog):
    a = h(x, rhol, rhog); return mul*(1 - a)*(1 + 2.5*a) + mug*a
r('Beattie_Whalley', bw, rhol=RL, rhog=RG, **V)
r('McAdams', lambda x, mul, mug: mul*mug/(x*mul + (1 - x)*mug), **V)
r('Cicchitti', lambda x, mul, mug: x*mug + (1 - x)*mul, **V)
r('Lin_Kwok', lambda x, mul, mug: mul*mug/(mug + x**1.4*(mul - mug)), **V)
def fb(x, mul, mug, rhol, rhog):
    a, b = mug/rhog, mul/rhol
    return rtp(x, rhol, rhog)*(x*a + (1 - x)*b + 2*sqrt(x*(1 - x)*a*b))
r('Fourar_Bories', fb, rhol=RL, rhog=RG, **V)
r('Duckler', lambda x, mul, mug, rhol, rhog: rtp(x, rhol, rhog)*(x*mug/rhog + (1 - x)*mul/rhol), rhol=RL, rhog=RG, **V)
@P.sub(rec(mul=ML, mug=MG, rhol=RL, rhog=RG, x=uf(.01, .99)), n=200)
def pure_ends(ctx, mul, mug, rhol, rhog, x):
    for n in ('Beattie_Whalley', 'McAdams', 'Cicchitti', 'Lin_Kwok', 'Fourar_Bories', 'Duckler'):
        f = getattr(tv, n); k = dict(mul=mul, mug=mug)
        if n in ('Beattie_Whalley', 'Fourar_Bories', 'Duckler'): k.update(rhol=rhol, rhog=rhog)
        close(f(x=0., **k), mul, 1e-11, 0, n + ' all liquid'); close(f(x=1., **k), mug, 1e-9, 0, n + ' all gas')
        close(tv.gas_liquid_viscosity(x=x, mul=mul, mug=mug, rhol=rhol, rhog=rhog, Method=n.replace('_', ' ')), f(x=x, **k), 1e-13, 0, 'gas_liquid_viscosity(%s)' % n)
    close(tv.gas_liquid_viscosity(x=x, mul=mul, mug=mug), tv.McAdams(x, mul, mug), 1e-13, 0, 'default mixture viscosity')
