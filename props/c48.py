"""C48: mixing, screens and grilles, saltation, vapour-liquid separators."""
from math import *
from fluids import *
from fluids.mixing import StatixMixers
from vf.core import *
from scipy.interpolate import BSpline

P = Prop('C48', rule='Generated inputs on both sides of every branch; results put back into the documented implicit or explicit equations; tables and digitised graphs frozen. Non-trivial: inside the documented limits.',
         assumptions=['York\'s two equations meet at 40 psia with a jump; that exact pressure is left out', 'tee mixing equations as coded (documented by reference only)'])
G = 9.80665; FT = .3048; PSI = 6894.757293168361
SALT = dict(mp=lf(.001, 50), dp=lf(2e-5, 5e-3), rhog=lf(.2, 60), D=lf(.02, 1), rhop=lf(300, 8000))
def mu_frs(V, mp, rhog, D): return mp/(pi/4*D*D*V*rhog), V/sqrt(G*D)
@P.sub(rec(**SALT, vt=lf(.05, 15) | uf(2.9, 3.1) | pick([3.]), default=pick([False]*5 + [True]), mug=lf(5e-6, 5e-5)), n=1500, thorough=30000)
def saltation(ctx, mp, dp, rhog, D, rhop, vt, default, mug):
    lg = lambda a, b, what, p: close(log(a), log(b), rtol=1e-11, atol=1e-10*p, what=what)
    V = Rizk(mp, dp, rhog, D); mu, fr = mu_frs(V, mp, rhog, D); lg(mu, fr**(1100*dp + 2.5)*10**-(1440*dp + 1.96), 'Rizk', 10)
    def frp(v): return v/sqrt(G*dp)
    kw, v = ({}, 1.) if default else (dict(Vterminal=vt), vt)
    V = Matsumoto_1974(mp, rhop, dp, rhog, D, **kw); mu, fr = mu_frs(V, mp, rhog, D); lg(mu, .448*(rhop/rhog)**.5*(frp(v)/10)**-1.75*(fr/10)**3, 'Matsumoto 1974', 3)
    V = Matsumoto_1975(mp, rhop, dp, rhog, D, **kw); mu, fr = mu_frs(V, mp, rhog, D); lg(mu, 1.11*(rhop/rhog)**.55*(frp(v)/10)**-2.3*(fr/10)**3, 'Matsumoto 1975', 3)
    star = 1.39*(rhop/rhog)**-.74*D
    if abs(star/dp - 1) > 1e-12:
        V = Matsumoto_1977(mp, rhop, dp, rhog, D, **kw); mu, fr = mu_frs(V, mp, rhog, D)
        lg(mu, 5560*(dp/D)**1.43*(fr/10)**4 if star > dp else .373*(rhop/rhog)**1.06*(frp(v)/10)**-3.7*(fr/10)**3.61, 'Matsumoto 1977', 4); ctx.label('fine' if star > dp else 'coarse')
    V = Schade(mp, rhop, dp, rhog, D); mu, fr = mu_frs(V, mp, rhog, D); lg(fr, mu**.11*(D/dp)**.025*(rhop/rhog)**.34, 'Schade', 1)
    v = 4. if default else vt; V = Weber_saltation(mp, rhop, dp, rhog, D, **kw); mu, fr = mu_frs(V, mp, rhog, D); lg(fr, (7 + 8/3*v if v < 3 else 15)*mu**.25*(dp/D)**.1, 'Weber', 1)
    Gs = mp/(pi/4*D*D)
    if abs(Gs/D/47000 - 1) > 1e-12: lg(Geldart_Ling(mp, rhog, D, mug), (1.5*Gs**.465*D**-.01 if Gs/D < 47000 else 8.7*Gs**.302*D**.153)*mug**.055*rhog**-.42, 'Geldart and Ling', 1); ctx.label('GL %d' % (Gs/D > 47000))

@P.sub(rec(N=lf(.05, 20), Pw=lf(1, 1e5), T=lf(.1, 10), HT=uf(.3, 3), mu=lf(1e-4, 5), rho=uf(600, 1600), DT=pick([None]) | uf(.2, .8), hom=pick([None, .95, .995]) | uf(.5, .9999), nb=ints(1, 4), pitch=uf(.3, 1.5), width=uf(.05, .2), h=uf(.5, 1.5), Kp=lf(50, 1000)), n=800, thorough=15000)
def stirred(ctx, N, Pw, T, HT, mu, rho, DT, hom, nb, pitch, width, h, Kp):
    kw = {}; D = T/2
    if DT is not None: D = kw['D'] = T*DT
    if hom is not None: kw['homogeneity'] = hom
    c = (Pw*G/(rho*N**3*D**5))**(1/3)*rho*D*D*N/mu; Fo = 5.2/c if c >= 6370 else (183/c)**2; ctx.label('turbulent' if c >= 6370 else 'transition')
    if abs(c/6370 - 1) > 1e-12:
        t = agitator_time_homogeneous(N=N, P=Pw, T=T, H=T*HT, mu=mu, rho=rho, **kw)
        close(t*mu/(rho*T**1.5*(T*HT)**.5), Fo*log(1 - (hom or .95))/log(.05), rtol=1e-11, what='mixing time as a Fourier number')
    k = Kp_helical_ribbon_Rieger(D, D*h, nb, D*pitch, D*width, T); close(k, 82.8*h*((T - D)/2/D)**-.38*pitch**-.35*width**.2*nb**.78, rtol=1e-11, what='Rieger'); close(time_helical_ribbon_Grenville(Kp, N), 896e3*Kp**-1.69/N, rtol=1e-12, what='Grenville')

@P.sub(rec(Q1=lf(.01, 50), r=lf(.01, 1), D=lf(.02, 2), dr=pick([None]) | lf(.05, .9), n=pick([None, 1, 2, 3, 4]), pd=pick([None]) | uf(.2, 5), bad=pick([0, 5, -1, 2.5]), Ki=uf(.2, .95), fd=lf(.005, .1), K=lf(1, 600), mixer=pick(['KMS', 'SMX', 'SMXL', 'SMF'])), n=800, thorough=15000)
def inline(ctx, Q1, r, D, dr, n, pd, bad, Ki, fd, K, mixer):
    Q2 = Q1*r; kw = {k: v for k, v in (('n', n), ('pipe_diameters', pd)) if v is not None}; D2 = None if dr is None else D*dr
    N, L = n or 1, 5. if pd is None else pd; ratio = (r**(2/3) if dr is None else dr); B = N*N*ratio**2*(r/ratio**2)**2
    b0, e0, p = {1: (.7, 1.33, 1), 2: (.8, 1.44, 1.5), 3: (.8, 1.75, 1.8), 4: (2., 1.97, 2)}[N]
    E = e0 + (.95*log(B/b0)**p if B >= b0 else 0); ctx.label('%d jets %s' % (N, 'strong' if B >= b0 else 'weak'))
    if abs(B/b0 - 1) > 1e-9: close(size_tee(Q1, Q2, D, D2, **kw)**2, .32/B**.86*L**-E, rtol=1e-9, what='tee mixing (variance)')
    raises(ValueError, size_tee, Q1, Q2, D, D2, n=bad, what='number of jets')
    close(COV_motionless_mixer(Ki, Q1, Q2, L), sqrt(Q1/Q2)*Ki**L, rtol=1e-11, what='motionless mixer CoV'); close(K_motionless_mixer(K, L*D, D, fd), K*fd*L, rtol=1e-12, what='motionless mixer K')
    want = {'KMS': (6.9, .87, 150, .5), 'SMX': (37.5, .63, 500, .46), 'SMXL': (7.8, .85, 100, .87), 'SMF': (5.6, .83, 130, .4)}[mixer]; m = StatixMixers[mixer]
    ensure((m['KL'], m['KiL'], m['KT'], m['KiT']) == want and m['Name'] == mixer, 'mixer constants')

RE, BE = [20., 30, 40, 60, 80, 100, 200, 400], [1.3, 1.1, .95, .83, .75, .7, .6, .52]
TH, GA = [0., 10, 20, 30, 40, 50, 60, 70, 80, 85], [1., .97, .88, .75, .59, .45, .3, .23, .15, .09]
SA = [.0015625, .003125, .00625, .0125, .025, .05, .1, .15, .2, .25, .3, .35, .4, .45, .5, .55, .6, .65, .7, .75, .8, .85, .9, 1.]; SK = [1024000., 256000, 64000, 16000, 4000, 1000, 250, 85, 52, 30, 17, 11, 7.7, 5.5, 3.8, 2.8, 2, 1.5, 1.1, .78, .53, .35, .08, 0]
GR = BSpline([.3, .3, .3, .45, .55, .7, .7, .7], [2., 1.0014285714285716, .5799999999999998, .3585714285714287, .2], 2)
NETS = {'round bar screen': (.95, .2), 'diamond pattern wire': (.67, 1.3), 'knotted net': (.7, 4.9), 'knotless net': (.72, 2.1)}
def lin(x, xs, ys):
    if x <= xs[0]: return ys[0]
    if x >= xs[-1]: return ys[-1]
    i = max(k for k in range(len(xs)) if xs[k] <= x); t = (x - xs[i])/(xs[i + 1] - xs[i]); return ys[i]*(1 - t) + ys[i + 1]*t
@P.sub(rec(a=uf(.05, .8) | pick([.05, .8]), Re=lf(5, 2000) | pick(RE), ang=pick([None, 0., 45.]) | uf(0, 90) | pick(TH) | uf(44, 46), am=uf(.85, 1), sub=pick([None] + list(NETS)), asq=uf(.0016, 1) | pick(SA) | lf(.0016, .1), ag=uf(.3, .7) | pick([.3, .45, .55, .7]), fr=uf(.5, 100) | pick([49.999999, 50.0000001, 50.1]), Dh=lf(1e-4, .1), fd=lf(.005, .1), miss=pick([None]*4 + ['l', 'Dh', 'fd'])), n=1500, thorough=30000)
def screens(ctx, a, Re, ang, am, sub, asq, ag, fr, Dh, fd, miss):
    def inc(strict):
        if ang is None: return None
        return cos(radians(ang))**2 if (ang < 45 if strict else ang <= 45) else lin(ang, TH, GA)
    kw = {} if ang is None else {'angle': ang}; f = inc(False)
    close(round_edge_screen(a, Re, **kw), lin(Re, RE, BE)*(1 - a*a)/a**2*(1 if f is None else f), rtol=1e-10, what='round edge screen')
    close(round_edge_screen(a, Re, angle=None), lin(Re, RE, BE)*(1 - a*a)/a**2, rtol=1e-10, what='round edge screen, no angle')
    k2 = dict(kw)
    if sub: k2['subtype'] = sub
    A, B = NETS[sub or 'diamond pattern wire']; f = inc(True); close(round_edge_open_mesh(am, **k2), (A*(1 - am) + B*(1 - am)**2)*(1 if f is None else f), rtol=1e-10, what='mesh'); raises(ValueError, round_edge_open_mesh, am, subtype='net', what='pattern')
    close(square_edge_screen(asq), lin(asq, SA, SK), rtol=1e-9, atol=1e-12, what='square edge screen')
    k3 = dict(l=fr*Dh, Dh=Dh, fd=fd)
    if miss: del k3[miss]
    fric = fd*fr if not miss and fr > 50 else 0.
    if abs(fr - 50) < 1e-9: raise SkipCase('exactly 50 hydraulic diameters')
    close(square_edge_grill(a, **k3), (.5*(1 - a) + 1 - a*a + fric)/a**2, rtol=1e-10, what='square edge grill'); close(round_edge_grill(ag, **k3), float(GR(ag)) + fric/ag**2, rtol=1e-10, what='round edge grill')
    tab = {.3: 2., .4: 1., .5: .6, .6: .4, .7: .2}
    for k, v in tab.items(): close(round_edge_grill(k), v, rtol=.05, what='tabulated grill')

WK = BSpline([-5.115995809754082]*4 + [-4.160106231099973, -3.209113630523477, -1.2175106961204154, .4587657198189318, 1.1197669427405068] + [1.6925908552310418]*4, [-1.4404286048266364, -1.2375168139385286, -.9072614905522024, -.7662335745829165, -.944537665617708, -1.957339717378027, -3.002614318094637, -3.5936804378352956, -3.8779153181940553], 3)
PTS = [(.0070053, .260298), (.0132476, .355905), (.0284272, .428886), (.0632613, .435258), (.127753, .403988), (.231181, .344197), (.407274, .265725), (.690966, .190704), (1.13294, .130049), (2.04083, .0744062), (3.61822, .036919)]
@P.sub(rec(x=uf(.02, .999), rl=uf(400, 1500), rg=lf(.05, 200), hor=pick([None, False, True]), met=pick([None, 'spline', 'blackwell', 'branan']), F=lf(.0061, 5.42), P=lf(3e3, 1e8) | pick([1., 15., 40., 5500.]).flatmap(lambda e: pick([e*PSI*.9999, e*PSI*1.0001, e*PSI*1.1, e*PSI*.9])), K=lf(.001, 1), D=lf(1e-6, .01), Cd=lf(.1, 1e4), gg=pick([None]) | uf(1, 20)), n=1200, thorough=25000)
def separators(ctx, x, rl, rg, hor, met, F, P, K, D, Cd, gg):
    kw = {} if hor is None else {'horizontal': hor}; m = 1.25 if hor else 1.
    # quality giving the wanted abscissa of the graph
    q = sqrt(rg/rl)/(F + sqrt(rg/rl)); X = log((1 - q)/q*sqrt(rg/rl)); k2 = dict(kw)
    if met: k2['method'] = met
    if 1 - q > 1e-9:
        w = {'blackwell': lambda: exp(-1.877478097 - .81145804597*X - .1870744085*X**2 - .0145228667*X**3 - .00101148518*X**4), 'branan': lambda: exp(-1.942936 - .814894*X - .17939*X**2 - .012379*X**3 + .000386235*X**4 + .00025955*X**5)}.get(met, lambda: exp(float(WK(X))))()
        got = K_separator_Watkins(q, rl, rg, **k2); close(got, w*FT*m, rtol=1e-9 + 1e-14/(1 - q), what='Watkins, ' + str(met))
    raises(ValueError, K_separator_Watkins, x, rl, rg, method='graph', what='method')
    for f, v in PTS:
        q = 1/(1 + f*sqrt(rl/rg)); close(K_separator_Watkins(q, rl, rg)/FT, v, rtol=.02, what='digitised point %g' % f)
    p = min(max(P/PSI, 1), 5500)
    if abs(p/40 - 1) > 1e-12 and abs(p/15 - 1) > 1e-12: close(K_separator_demister_York(P, **kw), (.1821 + .0029*p + .046*log(p) if p < 15 else .35 if p < 40 else .43 - .023*log(p))*FT*m, rtol=1e-10, what='York')
    if rl > rg:
        v = v_Souders_Brown(K, rl, rg); close(v*v*rg, K*K*(rl - rg), rtol=1e-11, what='Souders and Brown'); ensure(v_Sounders_Brown is v_Souders_Brown and K_Sounders_Brown_theoretical is K_Souders_Brown_theoretical, 'aliases')
        kt = K_Souders_Brown_theoretical(D, Cd) if gg is None else K_Souders_Brown_theoretical(D, Cd, gg); close(kt*kt*3*Cd, 4*(G if gg is None else gg)*D, rtol=1e-11, what='theoretical K')
        # the velocity it gives balances drag and weight of a drop
        vt = v_Souders_Brown(K_Souders_Brown_theoretical(D, Cd), rl, rg); close(Cd*pi/4*D*D*rg*vt*vt/2, pi/6*D**3*(rl - rg)*G, rtol=1e-11, what='drag balances weight')
