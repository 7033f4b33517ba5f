"""C50: namespaces, import orders, constants."""
from math import pi
from fractions import Fraction as F
import importlib, json, os, pickle, subprocess, sys, types
import fluids, fluids.units, fluids.vectorized
from vf import corpus
from vf.core import *

P = Prop('C50', rule='Random import orders and subsets of modules in fresh interpreters, every documented name in every namespace, random conversions between units of one kind. Non-trivial: more than one module imported, or two different units.',
         assumptions=['measured constants are compared with CODATA to 1e-5', 'RectangularOffsetStripFinExchanger and the particle size distribution base classes have no unit-aware version, by design'])
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'namespace.json')))
TOP = sorted(m for m in TABLE if m.count('.') == 1 and m not in ('fluids.design_climate', 'fluids.numerics'))
EXTRA = ['fluids.units', 'fluids.vectorized', 'fluids.numerics', 'fluids.constants', 'fluids.numerics.arrays', 'fluids.numerics.special', 'fluids.numerics.doubledouble', 'fluids.numerics.polynomial_utils', 'fluids.numerics.polynomial_roots', 'fluids.design_climate', 'fluids.optional', 'fluids.optional.spa', 'fluids.optional.irradiance', 'fluids.optional.pychebfun', 'fluids.nrlmsise00', 'fluids', 'fluids.constants.constants']
ALL = sorted(set(TABLE) | set(EXTRA))
IDX = [(m, n) for m in sorted(TABLE) for n in TABLE[m]]
# exact definitions
inch, lb, gal = F(254, 10000), F(45359237, 10**8), 231*F(254, 10000)**3; g = F(980665, 10**5); cal, calIT = F(4184, 1000), F(41868, 10000)
EXACT = {'length': dict(inch=inch, foot=12*inch, yard=36*inch, mile=63360*inch, mil=inch/1000, pt=inch/72, point=inch/72, survey_foot=F(1200, 3937), survey_mile=F(1200*5280, 3937), nautical_mile=1852, fermi=F(1, 10**15), angstrom=F(1, 10**10), micron=F(1, 10**6), light_year=299792458*31557600, kilo=1000, milli=F(1, 1000)),
 'mass': dict(gram=F(1, 1000), metric_ton=1000, grain=lb/7000, lb=lb, pound=lb, blob=lb*g/inch, slinch=lb*g/inch, slug=lb*g/inch/12, oz=lb/16, ounce=lb/16, stone=14*lb, long_ton=2240*lb, short_ton=2000*lb, troy_ounce=480*lb/7000, troy_pound=5760*lb/7000, carat=F(2, 10**4)),
 'time': dict(minute=60, hour=3600, day=86400, week=604800, year=31536000, Julian_year=31557600),
 'pressure': dict(atm=101325, atmosphere=101325, bar=10**5, torr=F(101325, 760), mmHg=F(101325, 760), inchHg=F(101325, 760)*inch*1000, psi=lb*g/inch**2),
 'area': dict(hectare=10**4, acre=43560*144*inch**2), 'volume': dict(litre=F(1, 1000), liter=F(1, 1000), gallon=gal, gallon_US=gal, fluid_ounce=gal/128, fluid_ounce_US=gal/128, bbl=42*gal, barrel=42*gal, gallon_imp=F(454609, 10**8), fluid_ounce_imp=F(454609, 160*10**8), foot_cubed=(12*inch)**3),
 'speed': dict(kmh=F(1000, 3600), mph=63360*inch/3600, knot=F(1852, 3600), c=299792458, speed_of_light=299792458), 'energy': dict(calorie=cal, calorie_th=cal, calorie_IT=calIT, erg=F(1, 10**7), Btu_th=lb*cal/F(9, 5)*1000, Btu=lb*calIT/F(9, 5)*1000, Btu_IT=lb*calIT/F(9, 5)*1000, ton_TNT=cal*10**9),
 'power': dict(hp=550*12*inch*lb*g, horsepower=550*12*inch*lb*g), 'force': dict(dyn=F(1, 10**5), dyne=F(1, 10**5), lbf=lb*g, pound_force=lb*g, kgf=g, kilogram_force=g), 'temperature': dict(zero_Celsius=F(27315, 100), degree_Fahrenheit=F(5, 9)), 'other': dict(g=g, N_A=602214076*10**15, Avogadro=602214076*10**15, k=F(1380649, 10**29), Boltzmann=F(1380649, 10**29), R=F(602214076*1380649, 10**14), gas_constant=F(602214076*1380649, 10**14)),
 'prefix': {**dict(zip('quecto ronto yocto zepto atto femto pico nano micro milli centi deci deka hecto kilo mega giga tera peta exa zetta yotta'.split(), [F(10)**e for e in (-30, -27, -24, -21, -18, -15, -12, -9, -6, -3, -2, -1, 1, 2, 3, 6, 9, 12, 15, 18, 21, 24)])), **{n: 2**(10*(i + 1)) for i, n in enumerate('kibi mebi gibi tebi pebi exbi zebi yobi'.split())}}}
REAL = dict(pi=pi, degree=pi/180, arcmin=pi/10800, arcminute=pi/10800, arcsec=pi/648000, arcsecond=pi/648000, deg2rad=pi/180, rad2deg=180/pi, root_two=2**.5, ln_10=2.302585092994046, ln_10_inv=0.4342944819032518, g_sqrt=9.80665**.5, mu_0=4e-7*pi, hour_inv=1/3600, inch_inv=1/.0254, foot_cubed_inv=1/.3048**3, atm_inv=1/101325, atmosphere_inv=1/101325, torr_inv=760/101325, mmHg_inv=760/101325, psi_inv=1/6894.757293168361, R_inv=1/8.31446261815324, R2=8.31446261815324**2, parsec=149597870691/(pi/648000))
CODATA = dict(h=6.62607015e-34, Planck=6.62607015e-34, hbar=1.054571817e-34, G=6.6743e-11, gravitational_constant=6.6743e-11, e=1.602176634e-19, elementary_charge=1.602176634e-19, eV=1.602176634e-19, electron_volt=1.602176634e-19, alpha=7.2973525693e-3, fine_structure=7.2973525693e-3, sigma=5.670374419e-8, Stefan_Boltzmann=5.670374419e-8, Wien=2.897771955e-3, Rydberg=10973731.56816, m_e=9.1093837015e-31, electron_mass=9.1093837015e-31, m_p=1.67262192369e-27, proton_mass=1.67262192369e-27, m_n=1.67492749804e-27, neutron_mass=1.67492749804e-27, m_u=1.6605390666e-27, u=1.6605390666e-27, atomic_mass=1.6605390666e-27, epsilon_0=8.8541878128e-12, au=149597870700., astronomical_unit=149597870700., debye=3.33564095e-30)
NOUNITS = {'RectangularOffsetStripFinExchanger', 'ParticleSizeDistribution', 'ParticleSizeDistributionContinuous'}    # left out on purpose in fluids/units.py
FLAT = {k: v for d in EXACT.values() for k, v in d.items()}; KINDS = sorted(k for k in EXACT if k not in ('other', 'temperature', 'prefix'))
@P.sub(rec(kind=pick(KINDS), i=ints(0, 99), j=ints(0, 99), x=lf(1e-12, 1e12)), n=600, thorough=20000)
def conversions(ctx, kind, i, j, x):
    """a quantity moved from one unit to another and back, against exact rational arithmetic"""
    D = EXACT[kind]; L = sorted(D); a, b = L[i % len(L)], L[j % len(L)]; c = fluids.constants
    got = x*getattr(c, a)/getattr(c, b); want = F(x)*D[a]/D[b]; ensure(abs(F(got)/want - 1) < F(2, 10**15), '%g %s in %s: %r, exactly %r', x, a, b, got, float(want))
    ensure(abs(got*getattr(c, b)/getattr(c, a)/x - 1) < 1e-15, 'and back')
    if a == b: ctx.trivial()
@P.sub(rec(k=ints(0, 9)), n=60, thorough=100)
def constants(ctx, k):
    for n in [*FLAT, *REAL, *CODATA][k::10]: constant(n)
def constant(n):
    c = fluids.constants; ensure(hasattr(c, n), n + ' is missing'); v = getattr(c, n); ensure(getattr(c.constants, n) is v, 'fluids.constants.constants.' + n)
    w, tol = (FLAT[n], 5e-16) if n in FLAT else (REAL[n], 1e-15) if n in REAL else (CODATA[n], 1e-5 if n != 'G' and n != 'gravitational_constant' else 1e-4)
    ensure(abs(F(v)/F(w) - 1) <= F(tol), '%s = %r, %r expected', n, v, float(w))
@P.sub(rec(z=uf(0, 1)), n=3, thorough=20)
def constants_relations(ctx, z):
    """constants that follow from others agree with them"""
    c = fluids.constants; rel = lambda a, b, tol, w: close(a, b, tol, what=w)
    rel(c.R, c.N_A*c.k, 1e-15, 'R'); rel(c.R_inv*c.R, 1., 4e-16, 'R_inv'); rel(c.R2, c.R**2, 4e-16, 'R2'); rel(c.g_sqrt**2, c.g, 4e-16, 'g_sqrt'); rel(c.epsilon_0*c.mu_0*c.c**2, 1., 4e-16, 'epsilon_0'); rel(c.hbar*2*pi, c.h, 4e-16, 'hbar'); rel(c.ln_10*c.ln_10_inv, 1., 4e-16, 'ln 10'); rel(c.psi*c.psi_inv, 1., 4e-16, 'psi')
    rel(c.sigma, 2*pi**5*c.k**4/(15*c.h**3*c.c**2), 5e-6, 'Stefan-Boltzmann'); rel(c.alpha, c.e**2/(2*c.epsilon_0*c.h*c.c), 1e-6, 'fine structure'); rel(c.Rydberg, c.alpha**2*c.m_e*c.c/(2*c.h), 1e-6, 'Rydberg'); rel(c.Wien, c.h*c.c/(c.k*4.965114231744276), 1e-5, 'Wien'); rel(c.m_u*c.N_A, 1e-3, 1e-6, 'atomic mass'); rel(c.deg2rad*c.rad2deg, 1., 4e-16, 'degrees')
    for u in ('fluids.core', 'fluids.friction', 'fluids.two_phase'):
        m = importlib.import_module(u)
        for n in ('g', 'R', 'pi'):
            if hasattr(m, n) and isinstance(getattr(m, n), float): ensure(getattr(m, n) == getattr(c, n), '%s.%s', u, n)
@P.sub(rec(k=ints(0, 39)), n=200, thorough=400)
def names(ctx, k):
    for m, n in IDX[k::40]: name(m, n)
def name(m, n):
    M = importlib.import_module(m); ensure(hasattr(M, n), '%s.%s is missing', m, n); o = getattr(M, n); ensure(n in M.__all__, '%s is not in %s.__all__', n, m)
    if m in TOP:
        ensure(getattr(fluids, n, None) is o, 'fluids.%s is not %s.%s', n, m, n); ensure(n in fluids.__all__, '%s is not in fluids.__all__', n); ensure(getattr(fluids, m.split('.')[1]) is M, 'fluids.%s', m.split('.')[1])
        if isinstance(o, (types.FunctionType, type)):
            ensure(hasattr(fluids.units, n) or n in NOUNITS, 'fluids.units.%s is missing', n); ensure(hasattr(fluids.vectorized, n), 'fluids.vectorized.%s is missing', n)
            if n in corpus.UNITS: ensure(getattr(fluids.units, n) is not o, 'fluids.units.%s is not wrapped', n)
    if isinstance(o, (types.FunctionType, type)): ensure(pickle.loads(pickle.dumps(o)) is o, '%s.%s cannot be pickled by name', m, n)
@P.sub(rec(k=ints(0, len(TABLE) - 1)), n=60, thorough=200)
def star(ctx, k):
    """a star import binds exactly the listed names, to the module's objects"""
    m = sorted(TABLE)[k]; M = importlib.import_module(m); ns = {}; exec('from %s import *' % m, ns); ns.pop('__builtins__')
    ensure(set(ns) == set(M.__all__) and set(ns) >= set(TABLE[m]), 'from %s import *: %r', m, set(ns) ^ set(M.__all__))
    for n, o in ns.items(): ensure(o is getattr(M, n), '%s.%s', m, n)
    top = {}; exec('from fluids import *', top); top.pop('__builtins__'); ensure(set(top) == set(fluids.__all__), 'from fluids import *')
    for s in fluids.submodules:
        for n in s.__all__: ensure(n in top and top[n] is getattr(s, n), 'fluids.%s is not %s.%s', n, s.__name__, n)
    ensure(len(set(fluids.submodules)) == len(fluids.submodules) and {s.__name__ for s in fluids.submodules} >= set(TOP), 'submodules'); A = fluids.all_submodules(); ensure(len({s.__name__ for s in A}) == len(A) and set(fluids.submodules) <= set(A) and fluids.numerics in A and fluids.numerics not in fluids.all_submodules(with_numerics=False), 'all_submodules')
CHILD = r'''
import sys, json, importlib, types, warnings; warnings.simplefilter('ignore')
order, table = json.loads(sys.stdin.read()); sys.path[:0] = %r
for m in order: 
    r = importlib.import_module(m)
    assert sys.modules[m] is r
import fluids, fluids.units, fluids.vectorized
out = {}
for m, L in table.items():
    M = importlib.import_module(m)
    for n in L:
        o = getattr(M, n); out[m + '.' + n] = '%%s.%%s' %% (o.__module__, o.__qualname__) if isinstance(o, (types.FunctionType, type)) else repr(o)[:200] if isinstance(o, (int, float, str, bool, tuple)) else type(o).__name__
        if m in %r and getattr(fluids, n) is not o: out[m + '.' + n] += ' is not the top-level object'
for n in ('units', 'vectorized', 'numerics', 'constants'):
    assert getattr(fluids, n) is importlib.import_module('fluids.' + n), n
out['units'] = str(fluids.units.Reynolds(V=2.5*fluids.units.u.m/fluids.units.u.s, D=1*fluids.units.u.ft, nu=1e-6*fluids.units.u.m**2/fluids.units.u.s))
out['vectorized'] = repr(fluids.vectorized.friction_factor([1e3, 1e5], 1e-4).tolist())
out['f'] = repr([fluids.friction_factor(1e5, 1e-4), fluids.two_phase_dP(m=0.6, x=0.1, rhol=915., rhog=2.67, mul=180E-6, mug=14E-6, sigma=0.0487, D=0.05, L=1.), fluids.TANK(D=1.2, L=4, horizontal=False).V_total, fluids.ATMOSPHERE_1976(5000.).P])
print(json.dumps(out))
'''
BASE = []
def child(order):
    r = subprocess.run([sys.executable, '-c', CHILD % ([p for p in sys.path if p], TOP)], input=json.dumps([order, TABLE]), capture_output=True, text=True)
    ensure(r.returncode == 0, 'importing %r: %s', order, r.stderr[-600:]); return json.loads(r.stdout.splitlines()[-1])
@P.sub(rec(order=flist(ints(0, len(ALL) - 1), 1, 12)), n=16, thorough=300, hang=300, weight=4000)
def import_orders(ctx, order):
    if not BASE: BASE.append(child(['fluids']))
    L = list(dict.fromkeys(ALL[i] for i in order)); got = child(L)
    for k, v in BASE[0].items(): ensure(got[k] == v, '%s after importing %r first: %s, otherwise %s', k, L, got[k], v)
    if len(L) < 2: ctx.trivial()
@P.sub(rec(n=pick(['units', 'vectorized', 'numba_vectorized_', 'nonsense', 'Friction_factor'])), n=8, thorough=20, hang=100)
def lazy(ctx, n):
    """lazily loaded namespaces appear on access; unknown names raise AttributeError"""
    code = 'import sys; sys.path[:0] = %r; import fluids\nx = getattr(fluids, %r, None); print(getattr(x, "__name__", None), hasattr(fluids, %r))' % ([p for p in sys.path if p], n, n)
    r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True); ensure(r.returncode == 0, r.stderr[-300:]); want = ('fluids.%s True' if n in ('units', 'vectorized') else 'None False') % (n,) if n in ('units', 'vectorized') else 'None False'
    ensure(r.stdout.strip() == want, 'fluids.%s: %s', n, r.stdout.strip())
