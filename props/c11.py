"""C11: helical-coil and plate friction."""
from math import sqrt, log, log10, exp, pi, sin, cos, tan
import fluids
from fluids import friction
from vf.core import *
from vf.refs import reffer, refsub
from .c09 import colebrook

P = Prop('C11', rule='Reynolds number log-uniform over laminar to fully turbulent with every branch limit (Dean 11.6, 42.328, Re 2.2E4, 2000, critical Re, the Kumar tables\' limits) and its neighbours drawn explicitly; '
         'coil ratio log-uniform. Non-trivial: every distinct input; labels give the branch.')
RE = lf(1., 1e7, (2040., 2.2e4, 2000.)); DI = lf(1e-3, 2); RAT = lf(1e-3, 1.)
def fs(Re, Di, rough): return 64/Re if Re < 2040 else colebrook(Re, rough/Di)
LAM = {
 'White': lambda Re, Di, Dc: 64/Re*(1 if Re*sqrt(Di/Dc) < 11.6 else 1/(1 - (1 - (11.6/(Re*sqrt(Di/Dc)))**.45)**(1/.45))),
 'Mori_Nakayama': lambda Re, Di, Dc: 64/Re*(1.405296 if Re*sqrt(Di/Dc) < 42.328036 else .108*sqrt(Re*sqrt(Di/Dc))/(1 - 3.253/sqrt(Re*sqrt(Di/Dc)))),
 'Schmidt': lambda Re, Di, Dc: 64/Re*(1 + .14*(Di/Dc)**.97*Re**(1 - .644*(Di/Dc)**.312)),
}
TUR = {
 'Srinivasan': lambda Re, Di, Dc, roughness=0: .336*(Re*sqrt(Di/Dc))**-.2,
 'Schmidt': lambda Re, Di, Dc, roughness=0: fs(Re, Di, roughness)*((1 + 2.88e4/Re*(Di/Dc)**.62) if Re < 2.2e4 else (1 + .0823*(1 + Di/Dc)*(Di/Dc)**.53*Re**.25)),
 'Mori_Nakayama': lambda Re, Di, Dc, roughness=0: .3*(Di/Dc)**.5*(Re*(Di/Dc)**2)**-.2*(1 + .112*(Re*(Di/Dc)**2)**-.2),
 'Prasad': lambda Re, Di, Dc, roughness=0: fs(Re, Di, roughness)*(1 + .18*(Re*(Di/Dc)**2)**.25),
 'Czop': lambda Re, Di, Dc, roughness=0: .096*(Re*sqrt(Di/Dc))**-.1517,
 'Guo': lambda Re, Di, Dc, roughness=0: .638*Re**-.15*(Di/Dc)**.51,
 'Ju': lambda Re, Di, Dc, roughness=0: fs(Re, Di, roughness)*(1 + .11*Re**.23*(Di/Dc)**.14),
 'Mandal_Nigam': lambda Re, Di, Dc, roughness=0: fs(Re, Di, roughness)*(1 + .03*(Re*sqrt(Di/Dc))**.27),
}
ROUGH = {'Schmidt', 'Prasad', 'Ju', 'Mandal_Nigam'}
TRA = {
 'Seth_Stahel': lambda Di, Dc: 1900*(1 + 8*sqrt(Di/Dc)), 'Ito': lambda Di, Dc: 20000*(Di/Dc)**.32, 'Kubair_Kuloor': lambda Di, Dc: 12730*(Di/Dc)**.2,
 'Kutateladze_Borishanskii': lambda Di, Dc: 2300 + 10500*(Di/Dc)**.3, 'Schmidt': lambda Di, Dc: 2300*(1 + 8.6*(Di/Dc)**.45), 'Srinivasan': lambda Di, Dc: 2100*(1 + 12*sqrt(Di/Dc)),
}
def near(base, ctx=None):
    return base
def mkl(nm):
    @P.sub(rec(Re=RE, Di=DI, x=RAT, De=opt(inear(lf(5, 100), [11.6, 42.328036, 11.6*(1+1e-9), 11.6*(1-1e-9), 42.328036*(1+1e-9), 42.328036*(1-1e-9), 12., 43.]), 2)), n=350, name='laminar_' + nm)
    def f(ctx, Re, Di, x, De):
        Dc = Di/x
        if De is not None: Re = De/sqrt(Di/Dc)
        de = Re*sqrt(Di/Dc)
        for lim in (11.6, 42.328036):
            if abs(de/lim - 1) < 1e-12: raise SkipCase
        close(getattr(friction, 'helical_laminar_fd_' + nm)(Re, Di, Dc), LAM[nm](Re, Di, Dc), 1e-9 if nm != 'White' else 1e-7, 0, nm)
        ctx.label('De<11.6' if de < 11.6 else 'De<42.3' if de < 42.328036 else 'De>42.3')
for nm in LAM: mkl(nm)
def mkt(nm):
    @P.sub(rec(Re=lf(50., 1e8, (2.2e4, 2040.)), Di=DI, x=RAT, rough=inear(lf(1e-7, 1e-2), [0.0, None], 3)), n=250, name='turbulent_' + nm)
    def f(ctx, Re, Di, x, rough):
        Dc = Di/x
        kw = {}
        if nm in ROUGH and rough is not None:
            rough = min(rough, .05*Di); kw['roughness'] = rough
        close(getattr(friction, 'helical_turbulent_fd_' + nm)(Re, Di, Dc, **kw), TUR[nm](Re, Di, Dc, kw.get('roughness', 0)), 1e-10, 0, nm)
        ctx.label('Re<2.2e4' if Re < 2.2e4 else 'Re>=2.2e4')
for nm in TUR: mkt(nm)
def mkr(nm):
    P.sub(rec(Di=DI, x=lf(1e-5, 1)), n=120, name='transition_' + nm)(lambda ctx, Di, x: close(getattr(friction, 'helical_transition_Re_' + nm)(Di, Di/x), TRA[nm](Di, Di/x), 1e-12, 0, nm) or
        close(friction.helical_Re_crit(Di=Di, Dc=Di/x, Method=nm.replace('_', ' ')), TRA[nm](Di, Di/x), 1e-12, 0, 'helical_Re_crit ' + nm))
for nm in TRA: mkr(nm)

LN = {'White': 'White', 'Mori Nakayama laminar': 'Mori_Nakayama', 'Schmidt laminar': 'Schmidt'}
TN = {'Schmidt turbulent': 'Schmidt', 'Mori Nakayama turbulent': 'Mori_Nakayama', 'Prasad': 'Prasad', 'Czop': 'Czop', 'Guo': 'Guo', 'Ju': 'Ju', 'Mandal Nigam': 'Mandal_Nigam', 'Srinivasan turbulent': 'Srinivasan'}
@P.sub(rec(Di=DI, x=RAT, y=inear(lf(.01, 100), [1 - 1e-9, 1 + 1e-9, .999, 1.001], 3), rough=opt(lf(1e-7, 1e-3)), rec_=opt(pick(sorted(TRA))), lam=opt(pick(sorted(LN))), tur=opt(pick(sorted(TN))), force=inear(st.none(), sorted(LN) + sorted(TN), 3), darcy=pick([True, True, False])), n=1500)
def friction_factor_curved(ctx, Di, x, y, rough, rec_, lam, tur, force, darcy):
    Dc = Di/x
    kw = {}
    if rough is not None: rough = min(rough, .05*Di); kw['roughness'] = rough
    if rec_: kw['Rec_method'] = rec_.replace('_', ' ')
    if lam: kw['laminar_method'] = lam
    if tur: kw['turbulent_method'] = tur
    if force: kw['Method'] = force
    if not darcy: kw['Darcy'] = False
    rc = TRA[rec_ or 'Schmidt'](Di, Dc)
    Re = y*rc
    turb = Re >= rc
    m = force or ((tur or 'Schmidt turbulent') if turb else (lam or 'Schmidt laminar'))
    if m in LN:
        de = Re*sqrt(Di/Dc)
        if min(abs(de/11.6 - 1), abs(de/42.328036 - 1)) < 1e-12: raise SkipCase
        want = LAM[LN[m]](Re, Di, Dc)
    else: want = TUR[TN[m]](Re, Di, Dc, rough or 0)
    if not darcy: want /= 4
    close(friction.friction_factor_curved(Re, Di, Dc, **kw), want, 1e-7 if m == 'White' else 1e-9, 0, 'friction_factor_curved picks %s' % m)
    ctx.label('turbulent' if turb else 'laminar', 'forced' if force else 'auto')
    # listing follows the Schmidt critical Reynolds number
    lst = friction.friction_factor_curved_methods(Re, Di, Dc)
    ensure(sorted(lst) == sorted(TN if Re >= TRA['Schmidt'](Di, Dc) else LN), 'methods listed %r', lst)
    ensure(sorted(friction.friction_factor_curved_methods(Re, Di, Dc, check_ranges=False)) == sorted([*LN, *TN]), 'unchecked method list')

# --- plates -----------------------------------------------------------------------------------
def m99(Re, chevron_angle):
    p = chevron_angle*pi/180
    f0, f1 = (16/Re, 149/Re + .9625) if Re < 2000 else ((1.56*log(Re) - 3)**-2, 9.75/Re**.289)
    return 4*(cos(p)/sqrt(.045*tan(p) + .09*sin(p) + f0/cos(p)) + (1 - cos(p))/sqrt(3.8*f1))**-2
def mvdi(Re, chevron_angle):
    p = chevron_angle*pi/180
    # VDI Heat Atlas: turbulent f0 = (1.8 lg Re - 1.5)^-2
    f0, f1 = (64/Re, 597/Re + 3.85) if Re < 2000 else ((1.8*log10(Re) - 1.5)**-2, 39/Re**.289)
    return (cos(p)/sqrt(.18*tan(p) + .36*sin(p) + f0/cos(p)) + (1 - cos(p))/sqrt(3.8*f1))**-2
KUM = [(30, [(10, 50., 1.), (100, 19.4, .589), (None, 2.99, .183)]), (45, [(15, 47., 1.), (300, 18.29, .652), (None, 1.441, .206)]), (50, [(20, 34., 1.), (300, 11.25, .631), (None, .772, .161)]),
       (60, [(40, 24., 1.), (400, 3.24, .457), (None, .76, .215)]), (65, [(50, 24., 1.), (500, 2.8, .451), (None, .639, .213)])]
def kumar(Re, chevron_angle):
    row = next((r for a, r in KUM if chevron_angle <= a), KUM[-1][1])
    for lim, C, p in row:
        if lim is None or Re <= lim: return 4*C/Re**p
def muley(Re, chevron_angle, plate_enlargement_factor):
    b, f = chevron_angle, plate_enlargement_factor
    return 4*(2.917 - .1277*b + 2.016e-3*b*b)*(5.474 - 19.02*f + 18.93*f*f - 5.341*f**3)*Re**-(.2 + .0577*sin(pi*b/45 + 2.1))
r = reffer(P, _n=300, _rtol=1e-9)
ANG = inear(uf(1., 85.), [30., 45., 50., 60., 65., 30.01, 45.01, 50.01, 60.01, 65.01, 70.], 3)
r('friction.friction_plate_Martin_1999', m99, _name='plate_Martin_1999', Re=lf(1, 1e6, (2000.,)), chevron_angle=uf(0, 85))
r('friction.friction_plate_Martin_VDI', mvdi, _name='plate_Martin_VDI', Re=lf(1, 1e6, (2000.,)), chevron_angle=uf(0, 85))
r('friction.friction_plate_Kumar', kumar, _name='plate_Kumar', _n=900, Re=inear(lf(1, 1e6), [10., 100., 15., 300., 20., 40., 400., 50., 500., 10.01, 100.01, 15.01, 300.1, 20.01, 40.01, 400.1, 50.01, 500.1], 3), chevron_angle=ANG)
r('friction.friction_plate_Muley_Manglik', muley, _name='plate_Muley_Manglik', Re=lf(1, 1e6), chevron_angle=uf(15, 75), plate_enlargement_factor=uf(1., 1.5))
