"""C17: control-valve noise."""
from math import sqrt, log10, exp, pi
import fluids
from fluids import control_valve as cv
from vf.core import *

P = Prop('C17', rule='Pressures, flows, sizes and valve factors log-uniform or uniform over service ranges, pressure ratios drawn to visit every regime and its boundaries, optional arguments present or not. Non-trivial: every distinct input (regimes counted in labels).',
         assumptions=['IEC 60534-8-3:2011 and 60534-8-4:2015 as stated in the source comments and docstrings; A-weights and third-octave bands of IEC 61672'])
F3 = [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1e3, 1250, 1600, 2e3, 2500, 3150, 4e3, 5e3, 6300, 8e3, 1e4, 12500, 16e3, 2e4]
A3 = [-63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -.8, 0, .6, 1, 1.2, 1.3, 1.2, 1, .5, -.1, -1.1, -2.5, -4.3, -6.6, -9.3]
CV = 1/(.0037854117839999997*60/(.45359237*9.80665/.0254**2/1e5)**.5)*1.   # m3/h-bar to gpm-psi, about 1.1561
RG = 8.31446261815324
def near(x, k, t=1e-9): return abs(x/k - 1) < t if k else abs(x) < t
def db(x): return 10*log10(x)
def total(levels): return db(sum(10**((l + a)/10) for l, a in zip(levels, A3)))

def ref_l(m, P1, P2, Psat, rho, c, Kv, d, Di, FL, Fd, t_pipe, rho_pipe=7800., c_pipe=5000., rho_air=1.2, c_air=343., xFz=None, An=-4.6):
    C = Kv*CV_KV
    xF = (P1 - P2)/(P1 - Psat); dPc = min(P1 - P2, FL**2*(P1 - Psat))
    if xFz is None: xFz = .9/(1 + 3*Fd*(C/(1.17*FL))**.5)**.5
    xz = xFz*(6e5/P1)**.125
    if near(xF, xz) or not xz < 1: raise SkipCase
    cav = xF > xz
    Dj = .0046*Fd*(C*FL)**.5; U = (2*dPc/rho)**.5/FL; Wm = m*U**2*FL**2/2
    et = 10**An*U/c
    ec = .32*et*((P1 - P2)/(dPc*xz))**.5*exp(5*xz)*((1 - xz)/(1 - xF))**.5*(xF/xz)**5*(xF - xz)**1.5 if cav else 0.
    Lpi = db(3.2e9*(et + ec)*Wm*rho*c/Di**2)
    Stp = .036*FL**2*C*Fd**.75/(1.17*xz**1.5*d**2)*(1/(P1 - Psat))**.57
    ft = Stp*U/Dj
    fc = 6*ft*((1 - xF)/(1 - xz))**2*(xz/xF)**2.5 if cav else None
    fr = c_pipe/(pi*Di)
    TLr = -10 - db(c_pipe*rho_pipe*t_pipe/(c_air*rho_air*Di))
    out = []
    for f in F3:
        Ft = -8 - db(.25*(f/ft)**3 + ft/f)
        if cav:
            Fc = -9 - db(.25*(f/fc)**1.5 + (fc/f)**1.5)
            L = Lpi + db(et/(et + ec)*10**(Ft/10) + ec/(et + ec)*10**(Fc/10))
        else: L = Lpi + Ft
        out.append(L + TLr - 20*log10(fr/f + (f/fr)**1.5) - db((Di + 2*t_pipe + 2)/(Di + 2*t_pipe)))
    return total(out), 'cavitating' if cav else 'turbulent'

CV_KV = (1/3600*1e3**.5/1e5**.5) / (231*.0254**3/60*1e3**.5/(.45359237*9.80665/.0254**2)**.5)
def ref_g(m, P1, P2, T1, rho, gamma, MW, Kv, d, Di, t_pipe, Fd, FL=None, FLP=None, FP=None, rho_pipe=7800., c_pipe=5000., P_air=101325., rho_air=1.2, c_air=343., An=-3.8, Stp=.2, T2=None, beta=.93):
    k = gamma; C = Kv*CV_KV; T2 = T1 if T2 is None else T2
    x = (P1 - P2)/P1
    F = FLP/FP if FLP is not None and FP is not None else FL
    if F is None: return ValueError, ''
    xv = 1 - (2/(k + 1))**(k/(k - 1)); xc = F**2*xv; al = (1 - xv)/(1 - xc)
    xB = 1 - 1/al*(1/k)**(k/(k - 1)); xE = 1 - 1/(22*al)
    for b in (xc, xv, xB, xE):
        if abs(x - b) < 1e-9: raise SkipCase
    if not xc < xv < xB < xE: raise SkipCase
    reg = 1 + (x > xc) + (x > xv) + (x > xB) + (x > xE)
    Dj = 4.6e-3*Fd*(C*F)**.5
    M5 = (2/(k - 1)*(22**((k - 1)/k) - 1))**.5
    if reg == 1:
        Mvc = (2/(k - 1)*((1 - x/F**2)**((1 - k)/k) - 1))**.5
        cvc = (k*P1/rho*(1 - x/F**2)**((k - 1)/k))**.5
        Wm = .5*m*(Mvc*cvc)**2; fp = Stp*Mvc*cvc/Dj; eta = 10**An*F**2*Mvc**3
    else:
        Mj = (2/(k - 1)*((1/(al*(1 - x)))**((k - 1)/k) - 1))**.5
        Mj = min(Mj, M5)
        cc = (2*k*P1/((k + 1)*rho))**.5; Wm = .5*m*cc**2
        if reg == 2: fp = Stp*Mj*cc/Dj; eta = 10**An*x/xv*Mj**(6.6*F**2)
        elif reg == 3: fp = Stp*Mj*cc/Dj; eta = 10**An*Mj**(6.6*F**2)
        else:
            M = Mj if reg == 4 else M5
            fp = 1.4*Stp*cc/(Dj*(M**2 - 1)**.5); eta = .5*10**An*M**2*2**(3.3*F**2)
    Wa = eta*Wm; rho2 = rho*P2/P1; c2 = (k*RG*T2/(MW/1e3))**.5
    M2 = 4*m/(pi*Di**2*rho2*c2)
    if near(M2, .3): raise SkipCase
    Lg = 16*log10(1/(1 - min(M2, .3)))
    L0 = db(3.2e9*Wa*rho2*c2/Di**2) + Lg
    if M2 > .3:
        UR = 4*m/(pi*rho2*beta*d**2)
        WR = .5*m*UR**2*((1 - d**2/Di**2)**2 + .2)
        fR = Stp*UR/d
        LR = db(3.2e9*10**An*(UR/c2)**3*WR*rho2*c2/Di**2) + Lg
    fr = c_pipe/(pi*Di); fo = fr/4*(c2/c_air); fg = 3**.5*c_air**2/(pi*t_pipe*c_pipe)
    dTL = 0. if d > .15 else 9. if d < .05 else -16660*d**3 + 6370*d**2 - 813*d + 35.8
    band = lambda f, p: -8 - db((1 + (f/(2*p))**2.5)*(1 + (p/(2*f))**1.7))
    out = []
    for f in F3:
        if any(near(f, q) for q in (fo, fr, fg)): raise SkipCase
        L = L0 + band(f, fp)
        if M2 > .3: L = db(10**(L/10) + 10**((LR + band(f, fR))/10))
        if f < fo: Gx = (fo/fr)**(2/3)*(f/fo)**4; Gy = fo/fg if fo < fg else 1.
        else: Gx = (f/fr)**.5 if f < fr else 1.; Gy = f/fg if f < fg else 1.
        eta_s = (1/(100*f))**.5
        TL = db(8.25e-7*(c2/(t_pipe*f))**2*Gx/((rho2*c2 + 2*pi*t_pipe*f*rho_pipe*eta_s)/(415*Gy) + 1)*P_air/101325) - dTL
        out.append(L + TL - db((Di + 2*t_pipe + 2)/(Di + 2*t_pipe)))
    return total(out), 'regime %d%s' % (reg, ' M2>0.3' if M2 > .3 else '')

drop = lambda k: {a: b for a, b in k.items() if b is not None}
PIPE = dict(Di=lf(.02, 1.), dr=uf(.2, 1.), t=lf(1e-3, .03), rho_pipe=opt(uf(2000, 9000)), c_pipe=opt(uf(2000, 7000)), rho_air=opt(uf(.8, 1.5)), c_air=opt(uf(300, 380)))
def pipe(k):
    dr = k.pop('dr'); k['d'] = k['Di']*dr; k['t_pipe'] = k.pop('t'); return k
LIQ = dict(m=lf(.1, 500), P1=lf(2e5, 2e7), xp=inear(uf(.01, .99), [.1, .3, .5]), pr=uf(1e-3, .5), rho=uf(500, 1500), c=uf(800, 2000), Kv=lf(.1, 5000), FL=uf(.4, 1), Fd=uf(.03, 1), xFz=opt(uf(.1, .7)), An=opt(uf(-5, -3.5), 3), **PIPE)
def liq(k):
    k = pipe(dict(k)); xp, pr = k.pop('xp'), k.pop('pr'); k['Psat'] = k['P1']*pr; k['P2'] = k['P1'] - xp*(k['P1'] - k['Psat'])
    return drop(k)
GAS = dict(m=lf(1e-3, 100), P1=lf(2e5, 2e7), x=inear(uf(.02, .5), [.6, .7, .8, .9, .95, .97, .99]), xh=opt(uf(.5, .995), 3), rho=lf(.5, 150), T1=uf(250, 800), T2=opt(uf(250, 800)), gamma=uf(1.06, 1.67), MW=uf(2, 120), Kv=lf(.1, 5000),
           FL=opt(uf(.4, .99), 5), FLP=opt(uf(.4, .85), 3), FP=opt(uf(.86, 1), 3), Fd=uf(.03, 1), P_air=opt(uf(7e4, 1.1e5)), An=opt(uf(-5, -3)), Stp=opt(uf(.1, .3)), beta=opt(uf(.6, 1)), mach=opt(uf(.02, 1.2), 3), **PIPE)
def gas(k):
    k = pipe(dict(k)); xh, x = k.pop('xh'), k.pop('x'); k['P2'] = k['P1']*(1 - (x if xh is None else xh)); mach = k.pop('mach')
    if mach is not None:    # choose the flow so that the outlet Mach number is as drawn
        k['m'] = mach*pi/4*k['Di']**2*(k['rho']*k['P2']/k['P1'])*(k['gamma']*RG*(k['T2'] or k['T1'])/(k['MW']/1e3))**.5
    return dict(drop(k), FL=k['FL'])     # FL is a required argument, None allowed
@P.sub(rec(**LIQ), n=1500)
def noise_l_2015(ctx, **k):
    kw = liq(k); want, lab = ref_l(**kw); ctx.label(lab)
    close(cv.control_valve_noise_l_2015(**kw), want, 1e-9, 1e-8, what='liquid noise level (%s)' % lab)
@P.sub(rec(**GAS), n=2500)
def noise_g_2011(ctx, **k):
    kw = gas(k); want, lab = ref_g(**kw); ctx.label(lab)
    if want is ValueError: raises(ValueError, cv.control_valve_noise_g_2011, **kw); return
    close(cv.control_valve_noise_g_2011(**kw), want, 1e-9, 1e-8, what='gas noise level (%s)' % lab)
@P.sub(rec(**LIQ, s=uf(1.05, 20)), n=300)
def liquid_relations(ctx, s, **k):
    kw = liq(k); a = finite(cv.control_valve_noise_l_2015(**kw))
    close(cv.control_valve_noise_l_2015(**dict(kw, m=kw['m']*s)), a + 10*log10(s), 0, 1e-8, what='noise is 10 log10 of the flow')
    t = kw['t_pipe']; g = lambda t: 10*log10(t) + 10*log10((kw['Di'] + 2*t + 2)/(kw['Di'] + 2*t))
    close(cv.control_valve_noise_l_2015(**dict(kw, t_pipe=t*s)), a + g(t) - g(t*s), 0, 1e-8, what='wall thickness')
    close(cv.control_valve_noise_l_2015(**dict(kw, An=kw.get('An', -4.6) - 1)), a - 10, 0, 1e-8, what='valve correction An')
    close(cv.control_valve_noise_l_2015(**dict(kw, rho_pipe=kw.get('rho_pipe', 7800.)*s)), a - 10*log10(s), 0, 1e-8, what='pipe density')
    close(cv.control_valve_noise_l_2015(**dict(kw, rho_air=kw.get('rho_air', 1.2)*s)), a + 10*log10(s), 0, 1e-8, what='air density')
@P.sub(rec(**GAS, s=uf(1.05, 5)), n=300)
def gas_relations(ctx, s, **k):
    kw = gas(k); kw['FL'] = kw['FL'] or .8
    a = finite(cv.control_valve_noise_g_2011(**kw))
    ensure(cv.control_valve_noise_g_2011(**dict(kw, t_pipe=kw['t_pipe']*s)) < a, 'a thicker pipe wall is not quieter')
    close(cv.control_valve_noise_g_2011(**dict(kw, An=kw.get('An', -3.8) + 1)), a + 10, 0, 1e-8, what='valve correction An')
    close(cv.control_valve_noise_g_2011(**dict(kw, P_air=kw.get('P_air', 101325.)*s)), a + 10*log10(s), 0, 1e-8, what='air pressure')
    if 'T2' not in kw: close(cv.control_valve_noise_g_2011(**dict(kw, T2=kw['T1'])), a, 1e-14, what='default T2')
    if 'FLP' in kw and 'FP' in kw: close(cv.control_valve_noise_g_2011(**dict(kw, FL=None)), a, 1e-14, what='FL must not matter with FLP and FP')
