"""C31: packed bed pressure drop and voidage."""
from math import sqrt, exp, pi
import fluids
from fluids import packed_bed as pb
from vf.core import *
from vf.refs import reffer

P = Prop('C31', rule='Particle 50 um-20 mm, voidage 0.05-0.95 (0.4 hit exactly), superficial velocity 1 um/s-10 m/s, bed diameter ratios 2-200 (50 hit exactly), sphericity 0.2-1. Non-trivial: every distinct state.',
         assumptions=['Brauer is taken with 3.1 (publication and implementation; the docstring prints 3)'])
r = reffer(P, _n=250, _rtol=1e-11)
DP, E, VS, RHO, MU, L = lf(5e-5, .02), uf(.05, .95, (.4, .3999999)), lf(1e-6, 10), lf(.05, 2000), lf(5e-6, .1), opt(lf(1e-3, 50))
B = dict(dp=DP, voidage=E, vs=VS, rho=RHO, mu=MU, L=L)
def modified(a, b, n):
    def f(dp, voidage, vs, rho, mu, L=1.):
        Rem = dp*rho*vs/(mu*(1 - voidage))
        return (a + b*Rem**n)*mu*vs*L/dp**2*(1 - voidage)**2/voidage**3
    return f
F = {'Ergun': modified(150, 1.75, 1), 'Kuo & Nydegger': modified(276.23, 5.05, .87), 'Tallmadge': modified(150, 4.2, 5/6),
     'Jones & Krier': modified(150, 3.89, .87), 'Carman': modified(180, 2.871, .9), 'Brauer': modified(160, 3.1, .9), 'KTA': modified(160, 3, .9),
     'Erdim, Akgiray & Demir': modified(160, 2.81, .904)}
def hicks(dp, voidage, vs, rho, mu, L=1.):
    return 6.8*(1 - voidage)**1.2/(dp*rho*vs/mu)**.2/voidage**3*rho*vs**2*L/dp
def fahien(dp, voidage, vs, rho, mu, L=1.):
    e = voidage; Rem = dp*rho*vs/(mu*(1 - e)); q = exp(-e**2*(1 - e)/12.6*Rem)
    f1L = 136/(1 - e)**.38; f1T = 29/((1 - e)**1.45*e**2); f2 = 1.87*e**.75/(1 - e)**.26
    return (q*f1L/Rem + (1 - q)*(f2 + f1T/Rem))*rho*vs**2*L/dp*(1 - e)/e**3
def idelchik(dp, voidage, vs, rho, mu, L=1.):
    Re = .45/sqrt(voidage)*rho*vs*dp/mu/(1 - voidage)
    return .765/voidage**4.2*(30/Re + 3/Re**.7 + .3)*L*rho*vs**2/dp
def harrison(dp, voidage, vs, rho, mu, L=1., Dt=None):
    A = B_ = 1
    if Dt is not None:
        A = (1 + pi*dp/(6*(1 - voidage)*Dt))**2; B_ = 1 - pi**2*dp/(24*Dt)*(1 - dp/(2*Dt))
    return modified(119.8*A, 4.63*B_, 5/6)(dp, voidage, vs, rho, mu, L)
def montillet(dp, voidage, vs, rho, mu, L=1., Dt=None):
    a = .061 if voidage < .4 else .05; Re = rho*vs*dp/mu
    Dc = 2.2 if Dt is None or Dt/dp > 50 else (Dt/dp)**.2
    return a*Dc*(1000/Re + 60/sqrt(Re) + 12)*L*rho*vs**2*(1 - voidage)/(dp*voidage**3)
def guo(dp, voidage, vs, rho, mu, L=1., Dt=None):
    return modified(180, 9.5374*(3.5 if Dt is None else dp/Dt) - 2.8054, .97)(dp, voidage, vs, rho, mu, L)
F.update({'Hicks': hicks, 'Fahien & Schriver': fahien, 'Idelchik': idelchik})
W = {'Harrison, Brunner & Hecker': harrison, 'Montillet, Akkari & Comiti': montillet, 'Guo, Sun, Zhang, Ding & Liu': guo}
FN = {'Ergun': 'Ergun', 'Kuo & Nydegger': 'Kuo_Nydegger', 'Tallmadge': 'Tallmadge', 'Jones & Krier': 'Jones_Krier', 'Carman': 'Carman', 'Brauer': 'Brauer', 'KTA': 'KTA',
      'Erdim, Akgiray & Demir': 'Erdim_Akgiray_Demir', 'Hicks': 'Hicks', 'Fahien & Schriver': 'Fahien_Schriver', 'Idelchik': 'Idelchik'}
for k, n in FN.items():
    r('packed_bed.' + n, F[k], **B)
WN = {'Harrison, Brunner & Hecker': 'Harrison_Brunner_Hecker', 'Montillet, Akkari & Comiti': 'Montillet_Akkari_Comiti', 'Guo, Sun, Zhang, Ding & Liu': 'Guo_Sun'}
RAT = opt(lf(2, 200, (50., 49.999, 50.001, 2.)))
for k, n in WN.items():
    def mk(k, n):
        @P.sub(rec(ratio=RAT, **B), n=400, name=n)
        def t(ctx, ratio, **a):
            if a['L'] is None: a.pop('L')
            if ratio is not None: a['Dt'] = ratio*a['dp']
            if ratio is not None and k[0] == 'M' and abs(a['Dt']/a['dp']/50 - 1) < 1e-9: a['dp'], a['Dt'] = 2.0**-8, 50*2.0**-8
            w = W[k](**a)
            Rem = a['dp']*a['rho']*a['vs']/(a['mu']*(1 - a['voidage']))
            sc = modified(180, 40, .97)(**{q: v for q, v in a.items() if q != 'Dt'}) if k[0] == 'G' else 0
            close(getattr(pb, n)(**a), w, 1e-11, 1e-13*sc, n)
            ctx.label('no wall' if ratio is None else 'ratio>50' if ratio > 50 else 'ratio<=50')
    mk(k, n)

ALL = sorted(F) + sorted(W)
@P.sub(rec(m=opt(pick(*ALL)), ratio=RAT, sph=opt(uf(.2, 1, (1.,))), **B), n=1500)
def dispatch(ctx, m, ratio, sph, L, **a):
    kw = dict(a)
    if L is not None: kw['L'] = L
    if ratio is not None: kw['Dt'] = ratio*a['dp']*(1 + 1e-7)
    if sph is not None: kw['sphericity'] = sph
    if m is not None: kw['Method'] = m
    got = fluids.dP_packed_bed(**kw)
    name = m or ('Harrison, Brunner & Hecker' if ratio is not None else 'Erdim, Akgiray & Demir')
    d = dict(a, L=1. if L is None else L); d['dp'] = d['dp']*(sph or 1.)
    if name in W and 'Dt' in kw: d['Dt'] = kw['Dt']
    if name[0] == 'M' and 'Dt' in kw and abs(d['Dt']/d['dp']/50 - 1) < 1e-12: raise SkipCase
    sc = modified(180, 40, .97)(**{q: v for q, v in d.items() if q != 'Dt'}) if name[0] == 'G' else 0
    close(got, (W.get(name) or F[name])(**d), 1e-11, 1e-13*sc, 'dP_packed_bed %s' % name)
    ms = fluids.dP_packed_bed_methods(**{q: v for q, v in kw.items() if q not in ('sphericity', 'Method')})
    want = set(F) | (set(W) if ratio is not None else set())
    ensure(set(ms) == want and len(ms) == len(want), 'dP_packed_bed_methods lists %r' % (ms,))
    ensure(ms[0] == ('Harrison, Brunner & Hecker' if ratio is not None else 'Erdim, Akgiray & Demir'), 'the first method %r is not the default' % ms[0])
    ctx.label(name)
@P.sub(rec(bad=pick('', 'ergun', 'Erdim', 'NOTAMETHOD', 'Harrison'), **B), n=60)
def unknown(ctx, bad, L, **a):
    raises(ValueError, fluids.dP_packed_bed, **dict(a, Method=bad), what='unknown method %r' % bad)
@P.sub(rec(m=pick(*ALL), ratio=opt(lf(2.5, 200)), f=lf(1.0001, 1e3), k=lf(.01, 100), de=uf(.0005, .3), **B), n=800)
def behaviour(ctx, m, ratio, f, k, de, L, **a):
    """Proportional to bed length; rising with velocity and viscosity, falling with voidage."""
    if m[0] == 'G': ratio = min(ratio or 3., 3.)
    kw = dict(a, Method=m)
    if ratio is not None and m in W: kw['Dt'] = ratio*a['dp']
    g = lambda **x: fluids.dP_packed_bed(**dict(kw, **x))
    b = g(L=1.)
    ensure(b > 0, 'pressure drop %r' % b)
    close(g(L=k), k*b, 1e-12, 0, 'bed length times %r' % k)
    ensure(g(vs=a['vs']*f) > b*(1 + 1e-12) or f < 1.00011, 'velocity times %r does not raise the pressure drop' % f)
    if m != 'Fahien & Schriver':
        ensure(g(mu=a['mu']*f) > b*(1 - 1e-12), 'viscosity times %r lowers the pressure drop' % f)
    if a['voidage'] + de < .99 and m != 'Fahien & Schriver':
        ensure(g(voidage=a['voidage'] + de) < b, 'raising voidage by %r raises the pressure drop' % de)
r('voidage_Benyahia_Oneil', lambda Dpe, Dt, sphericity: .1504 + .2024/sphericity + 1.0814/(Dt/Dpe + .1226)**2, Dpe=lf(1e-4, .1), Dt=lf(1e-3, 10), sphericity=uf(.1, 1))
r('voidage_Benyahia_Oneil_spherical', lambda Dp, Dt: .390 + 1.740/(Dt/Dp + 1.140)**2, Dp=lf(1e-4, .1), Dt=lf(1e-3, 10))
r('voidage_Benyahia_Oneil_cylindrical', lambda Dpe, Dt, sphericity: .373 + 1.703/(Dt/Dpe + .611)**2, Dpe=lf(1e-4, .1), Dt=lf(1e-3, 10), sphericity=uf(.1, 1))
