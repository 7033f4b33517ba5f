"""C09: straight-pipe friction factors."""
from math import sqrt, log, log10, exp, pi, nextafter, inf
import fluids
from fluids import friction
from vf.core import *
from vf.refs import reffer, refsub

P = Prop('C09', rule='Reynolds number log-uniform (edges of each stated range, the laminar limit and decade points drawn explicitly), relative roughness zero or log-uniform 1e-9..0.1. '
         'Non-trivial: every distinct (Re, eD) with a finite reference value.')

def colebrook(Re, eD):
    """fixed point of x = -2 log10(eD/3.7 + 2.51 x/Re); the map contracts for every turbulent state."""
    x = 8.0
    for _ in range(300):
        xn = -2*log10(eD/3.7 + 2.51*x/Re)
        if abs(xn - x) <= 1e-16*x: break
        x = xn
    return 1/(xn*xn)
RE = lf(2040., 1e12, (2040., 4000., 1e4, 1e8)); ED = inear(lf(1e-9, .1), [0., 1e-6, 1e-4, .05], 6)
for nm in ('Clamond', 'Colebrook'):
    refsub(P, 'friction.' + nm, lambda Re, eD: colebrook(Re, eD), _name=nm, _n=1500, _rtol=1e-12, Re=RE, eD=ED)
@P.sub(rec(Re=lf(2040., 1e10), eD=ED), n=60)
def Colebrook_exact(ctx, Re, eD):
    close(friction.Colebrook(Re, eD, tol=0), colebrook(Re, eD), 1e-12 + 5e-16*Re*eD, 0, 'Colebrook(tol=0)')
@P.sub(rec(Re=lf(4000., 1e9), eD=ED), n=200)
def Colebrook_numeric(ctx, Re, eD):
    close(friction.Colebrook(Re, eD, tol=1e-10), colebrook(Re, eD), 1e-7, 0, 'Colebrook(tol=1e-10)')
    close(friction.Colebrook(Re, eD, tol=-1), colebrook(Re, eD), 1e-12, 0, 'Colebrook(tol=-1)')
@P.sub(rec(Re=RE, eD=ED), n=300)
def Clamond_fast(ctx, Re, eD):
    close(friction.Clamond(Re, eD, True), colebrook(Re, eD), 3e-4, 0, 'Clamond(fast)')
@P.sub(rec(Re=lf(1e-3, 1e9, (2040.,)), eD=ED, D=pick([True, False]), m=pick(['default', None, 'Clamond', 'Colebrook', 'laminar'])), n=800)
def default_friction_factor(ctx, Re, eD, D, m):
    kw = {} if m == 'default' else {'Method': m}
    want = 64/Re if Re < 2040 or m == 'laminar' else colebrook(Re, eD)
    if not D: want /= 4; kw['Darcy'] = False
    ctx.label('laminar' if Re < 2040 else 'turbulent')
    close(friction.friction_factor(Re=Re, eD=eD, **kw), want, 1e-12, 0, 'friction_factor(%r)' % m)

lg, ln = log10, log
def a3(A, B, C): return A - (B - A)**2/(C - 2*B + A)
def _serg(Re, eD):
    A = -2*lg(eD/3.7 + 12/Re); B = -2*lg(eD/3.7 + 2.51*A/Re); C = -2*lg(eD/3.7 + 2.51*B/Re)
    return A, B, C
def _chu77(Re, eD):
    A2 = (2.457*ln((7/Re)**.9 + .27*eD))**16; A3 = (37530/Re)**16
    return 8*((8/Re)**12 + (A2 + A3)**-1.5)**(1/12)
def _brk(Re): return ln(Re/(1.816*ln(1.1*Re/ln(1 + 1.1*Re))))
def _buz(Re, eD):
    B1 = (.774*ln(Re) - 1.41)/(1 + 1.32*sqrt(eD)); B2 = eD/3.7*Re + 2.51*B1
    return (B1 - (B1 + 2*lg(B2/Re))/(1 + 2.18/B2))**-2
def _son(Re, eD):
    S = .124*eD*Re + ln(.4587*Re)
    return (.8686*ln(.4587*Re/S**(S/(S + 1))))**-2
def _tsal(Re, eD):
    A = .11*(68/Re + eD)**.25
    return A if A >= .018 else .0028 + .85*A
def _rao(Re, eD):
    b = 1 - .55*exp(-.33*ln(Re/6.5)**2)
    return (2*lg(1/(2*eD)/((.444 + .135*Re)/Re*b)))**-2
REF = {
 'Moody': lambda Re, eD: 4*1.375e-3*(1 + (2e4*eD + 1e6/Re)**(1/3)),
 'Alshul_1952': lambda Re, eD: .11*(68/Re + eD)**.25,
 'Wood_1966': lambda Re, eD: .094*eD**.225 + .53*eD + 88*eD**.4*Re**(-1.62*eD**.134),
 'Churchill_1973': lambda Re, eD: (-2*lg(eD/3.7 + (7/Re)**.9))**-2,
 'Eck_1973': lambda Re, eD: (-2*lg(eD/3.715 + 15/Re))**-2,
 'Jain_1976': lambda Re, eD: 4*(2.28 - 4*lg(eD + (29.843/Re)**.9))**-2,
 'Swamee_Jain_1976': lambda Re, eD: 4*(-4*lg((6.97/Re)**.9 + eD/3.7))**-2,
 'Churchill_1977': _chu77,
 'Chen_1979': lambda Re, eD: 4*(-4*lg(eD/3.7065 - 5.0452/Re*lg(eD**1.1098/2.8257 + (7.149/Re)**.8981)))**-2,
 'Round_1980': lambda Re, eD: 4*(-3.6*lg(Re/(.135*Re*eD + 6.5)))**-2,
 'Shacham_1980': lambda Re, eD: 4*(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 14.5/Re)))**-2,
 'Barr_1981': lambda Re, eD: (-2*lg(eD/3.7 + 4.518*lg(Re/7)/(Re*(1 + Re**.52/29*eD**.7))))**-2,
 'Zigrang_Sylvester_1': lambda Re, eD: 4*(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 13/Re)))**-2,
 'Zigrang_Sylvester_2': lambda Re, eD: 4*(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 13/Re))))**-2,
 'Haaland': lambda Re, eD: 4*(-3.6*lg((eD/3.7)**1.11 + 6.9/Re))**-2,
 'Serghides_1': lambda Re, eD: a3(*_serg(Re, eD))**-2,
 'Serghides_2': lambda Re, eD: a3(4.781, *_serg(Re, eD)[:2])**-2,
 'Tsal_1989': _tsal,
 'Manadilli_1997': lambda Re, eD: (-2*lg(eD/3.7 + 95/Re**.983 - 96.82/Re))**-2,
 'Romeo_2002': lambda Re, eD: (-2*lg(eD/3.7065 - 5.0272/Re*lg(eD/3.827 - 4.567/Re*lg((eD/7.7918)**.9924 + (5.3326/(208.815 + Re))**.9345))))**-2,
 'Sonnad_Goudar_2006': _son,
 'Rao_Kumar_2007': _rao,
 'Buzzelli_2008': _buz,
 'Avci_Karagoz_2009': lambda Re, eD: 6.4/(ln(Re) - ln(1 + .01*Re*eD*(1 + 10*sqrt(eD))))**2.4,
 'Papaevangelo_2010': lambda Re, eD: (.2479 - .0000947*(7 - ln(Re))**4)/lg(eD/3.615 + 7.366/Re**.9142)**2,
 'Brkic_2011_1': lambda Re, eD: (-2*lg(10**(-.4343*_brk(Re)) + eD/3.71))**-2,
 'Brkic_2011_2': lambda Re, eD: (-2*lg(2.18*_brk(Re)/Re + eD/3.71))**-2,
 'Fang_2011': lambda Re, eD: 1.613/ln(.234*eD**1.1007 - 60.525/Re**1.1105 + 56.291/Re**1.0712)**2,
}
def mk(nm):
    ref = REF[nm]
    pos = nm in ('Rao_Kumar_2007', 'Wood_1966')
    @P.sub(rec(Re=lf(2040., 1e10, (4000., 1e8)), eD=lf(1e-9, .1) if pos else ED), n=200, name=nm)
    def f(ctx, Re, eD):
        # Serghides: difference of nearly equal iterates, loses digits; the rest are well conditioned
        tol = 1e-9
        if nm == 'Serghides_1':
            A, B, C = _serg(Re, eD)
            tol = 1e-10 + 1e-14*abs((B - A)/(C - 2*B + A))**2
        if nm == 'Rao_Kumar_2007' and abs(_rao(Re, eD)) > 1e3: raise SkipCase
        want = ref(Re, eD)
        close(getattr(friction, nm)(Re, eD), want, tol, 1e-12 if nm == 'Papaevangelo_2010' else 0, nm)
        close(friction.friction_factor(Re=Re, eD=eD, Method=nm), want, tol, 1e-12 if nm == 'Papaevangelo_2010' else 0, 'friction_factor(Method=%s)' % nm)
for nm in REF: mk(nm)

# Largest deviation from Colebrook over the stated (or customary 4e3..1e8, 1e-6..0.05) range; a correlation outside
# its band is a wrong constant even if the docstring carries the same slip.
BAND = {'Moody': (4e3, 1e8, 1e-7, .01, .16), 'Alshul_1952': (4e3, 1e7, 1e-5, .05, .40), 'Churchill_1973': (4e3, 1e8, 1e-6, .05, .04), 'Wood_1966': (4e3, 5e7, 1e-5, .04, .5),
        'Eck_1973': (4e3, 1e8, 1e-6, .05, .10), 'Jain_1976': (5e3, 1e7, 4e-5, .05, .033), 'Swamee_Jain_1976': (5e3, 1e8, 1e-6, .05, .035), 'Churchill_1977': (4e3, 1e8, 1e-6, .05, .035),
        'Chen_1979': (4e3, 4e8, 1e-7, .05, .004), 'Round_1980': (4e3, 4e8, 1e-7, .05, .13), 'Shacham_1980': (4e3, 4e8, 1e-7, .05, .0105), 'Barr_1981': (4e3, 1e8, 1e-6, .05, .0062),
        'Zigrang_Sylvester_1': (4e3, 1e8, 4e-5, .05, .0102), 'Zigrang_Sylvester_2': (4e3, 1e8, 4e-5, .05, .0013), 'Haaland': (4e3, 1e8, 1e-6, .05, .016), 'Serghides_1': (4e3, 1e8, 1e-7, .05, 5e-5),
        'Serghides_2': (4e3, 1e8, 1e-6, .05, .0042), 'Tsal_1989': (4e3, 1e8, 1e-6, .05, .33), 'Manadilli_1997': (5245., 1e8, 1e-7, .05, .029), 'Romeo_2002': (3e3, 1.5e8, 1e-7, .05, .0018),
        'Sonnad_Goudar_2006': (4e3, 1e8, 1e-6, .05, .0115), 'Buzzelli_2008': (4e3, 1e8, 1e-7, .05, 1.6e-4), 'Avci_Karagoz_2009': (4e3, 1e8, 1e-6, .05, .035), 'Brkic_2011_1': (4e3, 1e8, 1e-6, .05, .037),
        'Brkic_2011_2': (4e3, 1e8, 1e-6, .05, .033), 'Fang_2011': (3e3, 1e8, 1e-7, .05, .0065), 'Clamond': (4e3, 1e8, 1e-9, .1, 1e-12), 'Papaevangelo_2010': (1e4, 1e7, 1e-5, 1e-3, .01)}
@P.sub(rec(name=pick(sorted(set(BAND) - {'Papaevangelo_2010'})), u=uf(0, 1), v=uf(0, 1)), n=3000)
def error_band(ctx, name, u, v):
    a, b, c, d, band = BAND[name]
    Re = a*(b/a)**u; eD = c*(d/c)**v
    f = friction.friction_factor(Re=Re, eD=eD, Method=name)
    e = f/colebrook(Re, eD) - 1
    ensure(abs(e) <= band, '%s deviates %.3g from Colebrook at Re=%r eD=%r (published band %g)', name, e, Re, eD, band)
    ctx.label(name)

P.sub(rec(Re=lf(1e-6, 1e6), ), n=100, name='friction_laminar')(lambda ctx, Re: close(friction.friction_laminar(Re), 64/Re, 1e-13, 0, 'friction_laminar'))
P.sub(rec(Re=lf(1, 1e8)), n=100, name='Blasius')(lambda ctx, Re: close(friction.Blasius(Re), .3164/Re**.25, 1e-12, 0, 'Blasius'))
P.sub(rec(eD=lf(1e-9, .5)), n=100, name='von_Karman')(lambda ctx, eD: close(friction.von_Karman(eD), (-2*log10(eD/3.7))**-2, 1e-12, 0, 'von_Karman'))
@P.sub(rec(Re=lf(1e3, 1e30)), n=200)
def Prandtl_von_Karman_Nikuradse(ctx, Re):
    f = friction.Prandtl_von_Karman_Nikuradse(Re)
    close(1/sqrt(f), -2*log10(2.51/(Re*sqrt(f))), 1e-11, 0, 'smooth pipe law residual')
@P.sub(rec(eD=lf(1e-6, .05), Re=lf(1e11, 1e13)), n=60)
def limits(ctx, eD, Re):
    if eD*Re > 1e7: close(friction.Clamond(Re, eD), friction.von_Karman(eD), 2e-4, 0, 'fully rough limit')
    close(friction.Clamond(Re, 0.0), friction.Prandtl_von_Karman_Nikuradse(Re), 1e-11, 0, 'smooth limit')
@P.sub(rec(Re=lf(2100., 1e9), eD=lf(1e-7, .05), f=uf(1.01, 3)), n=300)
def monotone(ctx, Re, eD, f):
    ensure(friction.friction_factor(Re*f, eD) < friction.friction_factor(Re, eD)*(1 + 1e-12), 'friction factor rises with Re')
    ensure(friction.friction_factor(Re, eD*f) > friction.friction_factor(Re, eD), 'friction factor falls with roughness')
@P.sub(rec(D=lf(1e-4, 20, (.01,))), n=300)
def ft_Crane(ctx, D):
    # complete turbulence at Re = 7.5E6 D with the roughness of bare carbon steel (Farshad)
    eD = .0014*(D/.0254)**(-.0112)*.0254/D
    close(friction.ft_Crane(D), colebrook(7.5e6*D, eD), 2e-5 if D >= .01 else 1e-9, 0, 'ft_Crane')
FAR = {'Plastic coated': (5e-6, .0002, -1.0098), 'Carbon steel, honed bare': (12.5e-6, .0005, -1.0101), 'Cr13, electropolished bare': (30e-6, .0012, -1.0086), 'Cement lining': (33e-6, .0014, -1.0105),
       'Carbon steel, bare': (36e-6, .0014, -1.0112), 'Fiberglass lining': (38e-6, .0016, -1.0086), 'Cr13, bare': (55e-6, .0021, -1.0055)}
@P.sub(rec(ID=pick(sorted(FAR)), D=opt(lf(1e-3, 5), 4), A=lf(1e-5, 1e-2), B=uf(-1.2, -.9)), n=200)
def roughness_Farshad(ctx, ID, D, A, B):
    t = FAR[ID]
    if D is None: want = t[0]; got = friction.roughness_Farshad(ID)
    else:
        want = t[1]*(D/.0254)**(t[2] + 1)*.0254; got = friction.roughness_Farshad(ID, D)
        close(friction.roughness_Farshad(D=D, coeffs=(A, B)), A*(D/.0254)**(B + 1)*.0254, 1e-12, 0, 'roughness_Farshad(coeffs)')
    close(got, want, 1e-12, 0, 'roughness_Farshad(%s, %r)' % (ID, D))
    close(friction.material_roughness(ID, D=D) if D else friction.material_roughness(ID), want, 1e-12, 0, 'material_roughness')
CLEAN = {'Brass': 1.52e-6, 'Lead': 1.52e-6, 'Glass': 1.52e-6, 'Steel': 1.52e-6, 'Asphalted cast iron': .000122, 'Galvanized iron': .000152, 'Cast iron': .000259, 'Wood stave': .000183, 'Rough wood stave': .000914,
         'Concrete': .000305, 'Rough concrete': .00305, 'Riveted steel': .000914, 'Rough riveted steel': .00914}
@P.sub(rec(i=ints(0, 500), opt_=pick([None, True, False])), n=300)
def material_roughness(ctx, i, opt_):
    names = sorted(friction.HHR_roughness)
    nm = names[i % len(names)]
    lo, hi, avg = friction.HHR_roughness[nm]
    ensure(any(x is not None for x in (lo, hi, avg)), 'no data for %s', nm)
    if lo is not None and hi is not None: ensure(lo <= hi, 'range of %s reversed', nm)
    order = {None: (avg, hi, lo), True: (lo, avg, hi), False: (hi, avg, lo)}[opt_]
    want = next(x for x in order if x)
    if nm in CLEAN or nm in FAR: raise SkipCase
    close(friction.material_roughness(nm, optimism=opt_), want, 1e-14, 0, 'material_roughness(%r, optimism=%r)' % (nm, opt_))
    ensure(1e-7 < want <= 3, 'roughness %r of %s implausible', want, nm)
    c = sorted(CLEAN)[i % len(CLEAN)]
    close(friction.material_roughness(c, optimism=opt_), CLEAN[c], 1e-14, 0, 'material_roughness(%r)' % c)
    ensure(friction.nearest_material_roughness(c, clean=True) == c and friction.nearest_material_roughness(nm, clean=False) == nm, 'nearest material of an exact name is another')
