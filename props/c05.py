"""C05: dimensionless groups equal their definitions, alternative inputs agree, insufficient inputs raise."""
from math import sqrt, sin, pi
import fluids
from fluids import core
from vf.core import *
from vf.refs import refsub, reffer, dropn

P = Prop('C05', rule='Property values drawn log-uniformly over many decades; every optional-argument subset drawn as a mask. '
         'Non-trivial: the call returned a finite non-zero number or correctly refused an insufficient set (distinct by input).',
         assumptions=['redundant argument sets describe one consistent physical state (nu = mu/rho, alpha = k/(rho Cp))'])
G = 9.80665
X = lf(1e-6, 1e6)
V, L, D = lf(1e-4, 1e3), lf(1e-6, 1e3), lf(1e-6, 1e2)
RHO, MU, CP, K = lf(1e-3, 2e4), lf(1e-7, 1e2), lf(10, 1e5), lf(1e-3, 1e3)
N = 100

r = reffer(P, _n=N, _rtol=1e-11)

r('thermal_diffusivity', lambda k, rho, Cp: k/rho/Cp, k=K, rho=RHO, Cp=CP)
r('c_ideal_gas', lambda T, k, MW: sqrt(k*8.31446261815324/(MW*1e-3)*T), T=lf(1, 1e4), k=uf(1.01, 2), MW=lf(1, 500))
r('Peclet_mass', lambda V, L, D: V*L/D, V=V, L=L, D=D)
r('Fourier_mass', lambda t, L, D: t*D/L**2, t=X, L=L, D=D)
r('Weber', lambda V, L, rho, sigma: rho*V**2*L/sigma, V=V, L=L, rho=RHO, sigma=lf(1e-4, 10))
r('Mach', lambda V, c: V/c, V=V, c=lf(1, 1e4))
r('Confinement', lambda D, rhol, rhog, sigma, g=G: sqrt(sigma/(g*(rhol-rhog)))/D, _strategy=rec(D=D, rhol=lf(100, 2e4), rhog=lf(1e-3, 99), sigma=lf(1e-4, 10), g=opt(lf(.1, 100))))
r('Morton', lambda rhol, rhog, mul, sigma, g=G: g*mul**4*(rhol-rhog)/(rhol**2*sigma**3), _strategy=rec(rhol=lf(100, 2e4), rhog=lf(1e-3, 99), mul=MU, sigma=lf(1e-4, 10), g=opt(lf(.1, 100))))
r('Knudsen', lambda path, L: path/L, path=lf(1e-12, 1), L=L)
r('Bond', lambda rhol, rhog, sigma, L: G*(rhol-rhog)*L**2/sigma, rhol=lf(100, 2e4), rhog=lf(1e-3, 99), sigma=lf(1e-4, 10), L=L)
r('Eotvos', lambda rhol, rhog, sigma, L: G*(rhol-rhog)*L**2/sigma, rhol=lf(100, 2e4), rhog=lf(1e-3, 99), sigma=lf(1e-4, 10), L=L)
r('Rayleigh', lambda Pr, Gr: Pr*Gr, Pr=X, Gr=lf(1e-6, 1e15))
r('Froude', lambda V, L, g=G, squared=False: V**2/(g*L) if squared else V/sqrt(g*L), V=V, L=L, g=opt(lf(.1, 100)), squared=opt(pick([True, False]), 3))
def _frd(V, L, rho1, rho2, heavy=True, g=G):
    return V/sqrt(g*L)*sqrt((rho1 if heavy else rho2)/(rho1 - rho2))
r('Froude_densimetric', _frd, V=V, L=L, rho1=lf(1.1, 1e4), rho2=lf(1e-3, 1), heavy=opt(pick([True, False]), 3), g=opt(lf(.1, 100)))
r('Strouhal', lambda f, L, V: f*L/V, f=X, L=L, V=V)
r('Nusselt', lambda h, L, k: h*L/k, h=X, L=L, k=K)
r('Sherwood', lambda K, L, D: K*L/D, K=X, L=L, D=D)
r('Biot', lambda h, L, k: h*L/k, h=X, L=L, k=K)
r('Stanton', lambda h, V, rho, Cp: h/(V*rho*Cp), h=X, V=V, rho=RHO, Cp=CP)
r('Euler', lambda dP, rho, V: dP/(rho*V**2), dP=X, rho=RHO, V=V)
r('Cavitation', lambda P, Psat, rho, V: (P-Psat)/(rho*V**2/2), P=lf(1e3, 1e8), Psat=lf(1, 9e2), rho=RHO, V=V)
r('Eckert', lambda V, Cp, dT: V**2/(Cp*dT), V=V, Cp=CP, dT=X)
r('Jakob', lambda Cp, Hvap, Te: Cp*Te/Hvap, Cp=CP, Hvap=lf(1e3, 1e7), Te=lf(1e-3, 1e3))
r('Power_number', lambda P, L, N, rho: P/(rho*N**3*L**5), P=X, L=lf(1e-3, 100), N=lf(1e-3, 1e3), rho=RHO)
r('Drag', lambda F, A, V, rho: F/(A*rho*V**2/2), F=X, A=lf(1e-8, 1e3), V=V, rho=RHO)
r('Stokes_number', lambda V, Dp, D, rhop, mu: rhop*V*Dp**2/(18*mu*D), V=V, Dp=lf(1e-7, 1e-1), D=D, rhop=RHO, mu=MU)
r('Capillary', lambda V, mu, sigma: V*mu/sigma, V=V, mu=MU, sigma=lf(1e-4, 10))
r('Archimedes', lambda L, rhof, rhop, mu, g=G: L**3*rhof*(rhop-rhof)*g/mu**2, L=L, rhof=RHO, rhop=lf(1e-3, 3e4), mu=MU, g=opt(lf(.1, 100)))
r('Ohnesorge', lambda L, rho, mu, sigma: mu/sqrt(rho*sigma*L), L=L, rho=RHO, mu=MU, sigma=lf(1e-4, 10))
r('Suratman', lambda L, rho, mu, sigma: rho*sigma*L/mu**2, L=L, rho=RHO, mu=MU, sigma=lf(1e-4, 10))
r('Hagen', lambda Re, fd: fd*Re**2/2, Re=lf(1e-3, 1e9), fd=lf(1e-4, 10))
r('Bejan_L', lambda dP, L, mu, alpha: dP*L**2/(mu*alpha), dP=X, L=L, mu=MU, alpha=lf(1e-9, 1e-2))
r('Bejan_p', lambda dP, K, mu, alpha: dP*K/(mu*alpha), dP=X, K=lf(1e-12, 1), mu=MU, alpha=lf(1e-9, 1e-2))
r('Boiling', lambda G, q, Hvap: q/(G*Hvap), G=X, q=X, Hvap=lf(1e3, 1e7))
r('Dean', lambda Re, Di, D: sqrt(Di/D)*Re, Re=lf(1e-3, 1e9), Di=lf(1e-4, 10), D=lf(1e-3, 100))
r('relative_roughness', lambda D, roughness=1.52e-6: roughness/D, D=D, roughness=opt(lf(1e-9, 1e-1)))
def _grav(latitude, H):
    s, s2 = sin(latitude*pi/180), sin(2*latitude*pi/180)
    return 9.780356*(1 + 0.0052885*s**2 - 0.0000059*s2**2) - 3.086e-6*H
r('gravity', _grav, latitude=uf(-90, 90, (0., 45., -45.)), H=uf(-5e3, 2e6, (0.,)))

# --- groups with alternative argument sets ---------------------------------------------------
def closure(given):
    g = set(given)
    for _ in range(3):
        for tgt, a in (('nu', ('mu', 'rho')), ('alpha', ('k', 'rho', 'Cp'))):
            s = {tgt, *a}
            if len(s - g) == 1: g |= s
    return g

MULTI = {
    # name: fixed args, optional args, documented sufficient sets, target sets for determinability, value
    'Reynolds': (('V', 'D'), ('rho', 'mu', 'nu'), [('rho', 'mu'), ('nu',)], [('nu',)], lambda s: s['V']*s['D']/s['nu']),
    'Peclet_heat': (('V', 'L'), ('rho', 'Cp', 'k', 'alpha'), [('rho', 'Cp', 'k'), ('alpha',)], [('alpha',)], lambda s: s['V']*s['L']/s['alpha']),
    'Fourier_heat': (('t', 'L'), ('rho', 'Cp', 'k', 'alpha'), [('rho', 'Cp', 'k'), ('alpha',)], [('alpha',)], lambda s: s['t']*s['alpha']/s['L']**2),
    'Graetz_heat': (('V', 'D', 'x'), ('rho', 'Cp', 'k', 'alpha'), [('rho', 'Cp', 'k'), ('alpha',)], [('alpha',)], lambda s: s['V']*s['D']**2/(s['x']*s['alpha'])),
    'Schmidt': (('D',), ('mu', 'nu', 'rho'), [('mu', 'rho'), ('nu',)], [('nu',)], lambda s: s['nu']/s['D']),
    'Lewis': (('D',), ('alpha', 'Cp', 'k', 'rho'), [('k', 'Cp', 'rho'), ('alpha',)], [('alpha',)], lambda s: s['alpha']/s['D']),
    'Prandtl': ((), ('Cp', 'k', 'mu', 'nu', 'rho', 'alpha'), [('mu', 'Cp', 'k'), ('nu', 'rho', 'Cp', 'k'), ('nu', 'alpha')], [('nu', 'alpha'), ('mu', 'Cp', 'k')], lambda s: s['nu']/s['alpha']),
    'Grashof': (('L', 'beta', 'T1'), ('T2', 'g', 'rho', 'mu', 'nu'), [('rho', 'mu'), ('nu',)], [('nu',)], None),
}
STATE = dict(V=V, D=D, L=L, t=X, x=L, beta=lf(1e-6, 1), T1=uf(1, 1000), T2=uf(1, 1000), g=lf(.1, 100), rho=RHO, mu=MU, Cp=CP, k=K)
def _mk(name):
    fixed, optional, suff, tgts, val = MULTI[name]
    need = set(fixed) | set(optional) | {'rho', 'mu', 'Cp', 'k'}
    strat = st.tuples(rec(**{q: STATE[q] for q in STATE if q in need}),
                      st.tuples(*[st.booleans()]*len(optional)), st.integers(0, 3)).map(lambda t: dict(s=t[0], mask=list(t[1]), force=t[2]))
    @P.sub(strat, n=250, name='alt_' + name)
    def fn(ctx, s, mask, force):
        s = dict(s); s['nu'] = s['mu']/s['rho']; s['alpha'] = s['k']/(s['rho']*s['Cp'])
        given = [o for o, m in zip(optional, mask) if m]
        if force and force <= len(suff):
            given = sorted(set(given) | set(suff[force - 1]))
        kw = {q: s[q] for q in fixed}; kw.update({q: s[q] for q in given})
        f = getattr(fluids, name)
        if val is not None: want = val(s)
        else: want = kw.get('g', G)*s['beta']*abs(kw.get('T2', 0) - s['T1'])*s['L']**3/s['nu']**2
        documented = any(set(q) <= set(given) for q in suff)
        cl = closure(given)
        determinable = any(set(q) <= cl for q in tgts)
        if documented:
            ctx.label('documented:%d' % len(given))
            close(f(**kw), want, 1e-11, what='%s(%r)' % (name, kw))
        elif not determinable:
            ctx.label('insufficient')
            raises(ValueError, f, what=name + ' with insufficient arguments %r' % sorted(kw), **kw)
        else:
            ctx.label('implied')
            try: v = f(**kw)
            except ValueError: return
            close(v, want, 1e-11, what=name)
for _n in MULTI: _mk(_n)

@P.sub(n=300, V=V, L=L, rho=RHO, mu=MU, Cp=CP, k=K, sigma=lf(1e-4, 10), Dm=lf(1e-11, 1e-4), beta=lf(1e-6, 1), dT=lf(1e-3, 1e3), rhog=lf(1e-3, 99), x=L, h=X, fd=lf(1e-4, 1), dP=X)
def identities(ctx, V, L, rho, mu, Cp, k, sigma, Dm, beta, dT, rhog, x, h, fd, dP):
    c = core
    Re = c.Reynolds(V=V, D=L, rho=rho, mu=mu); Pr = c.Prandtl(Cp=Cp, k=k, mu=mu); Sc = c.Schmidt(D=Dm, mu=mu, rho=rho)
    al = c.thermal_diffusivity(k=k, rho=rho, Cp=Cp); Le = c.Lewis(D=Dm, alpha=al)
    R = 1e-10
    close(c.Peclet_heat(V=V, L=L, alpha=al), Re*Pr, R, what='Pe=RePr')
    close(c.Peclet_mass(V=V, L=L, D=Dm), Re*Sc, R, what='Pe_m=ReSc')
    close(Le, Sc/Pr, R, what='Le=Sc/Pr')
    close(c.Graetz_heat(V=V, D=L, x=x, alpha=al), L/x*Re*Pr, R, what='Gz')
    We = c.Weber(V=V, L=L, rho=rho, sigma=sigma); Oh = c.Ohnesorge(L=L, rho=rho, mu=mu, sigma=sigma)
    close(Oh, sqrt(We)/Re, R, what='Oh=sqrt(We)/Re')
    close(c.Suratman(L=L, rho=rho, mu=mu, sigma=sigma), 1/Oh**2, R, what='Su=1/Oh^2')
    close(c.Capillary(V=V, mu=mu, sigma=sigma), We/Re, R, what='Ca=We/Re')
    close(c.Stanton(h=h, V=V, rho=rho, Cp=Cp), c.Nusselt(h=h, L=L, k=k)/(Re*Pr), R, what='St=Nu/(RePr)')
    Gr = c.Grashof(L=L, beta=beta, T1=dT, T2=0.0, rho=rho, mu=mu)
    close(c.Rayleigh(Pr=Pr, Gr=Gr), G*beta*dT*L**3/(mu/rho*al), R, what='Ra')
    close(c.Fourier_heat(t=x, L=L, alpha=al), c.Fourier_heat(t=x, L=L, rho=rho, Cp=Cp, k=k), R, what='Fo')
    if rho > rhog*1.5:
        Bo = c.Bond(rhol=rho, rhog=rhog, sigma=sigma, L=L)
        close(c.Confinement(D=L, rhol=rho, rhog=rhog, sigma=sigma), Bo**-0.5, R, what='Co=Bo^-1/2')
        Ca = c.Capillary(V=V, mu=mu, sigma=sigma)
        close(c.Morton(rhol=rho, rhog=rhog, mul=mu, sigma=sigma), Bo*Ca**4/We**2, 1e-8, what='Mo = Bo Ca^4/We^2')
        close(c.Archimedes(L=L, rhof=rhog, rhop=rho, mu=mu), G*L**3*rhog*(rho-rhog)/mu**2, R, what='Ar')
    close(c.Hagen(Re=Re, fd=fd), fd*Re**2/2, R, what='Hg')
    close(c.Bejan_L(dP=dP, L=L, mu=mu, alpha=al), c.Bejan_p(dP=dP, K=L*L, mu=mu, alpha=al), R, what='Be')
    close(c.Froude(V=V, L=L, squared=True), c.Froude(V=V, L=L)**2, R, what='Fr^2')
    close(c.Biot(h=h, L=L, k=k), c.Nusselt(h=h, L=L, k=k), R, what='Bi~Nu')
    close(c.alpha(k=k, rho=rho, Cp=Cp), al, R, what='alpha alias'); close(c.Pr(Cp=Cp, k=k, mu=mu), Pr, R, what='Pr alias')
