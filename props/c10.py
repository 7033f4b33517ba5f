"""C10: method lists, dispatch and defaults."""
from math import *
import inspect, warnings
import fluids
from vf import corpus
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C10', rule='Random inputs with each optional property present or absent, range checking on or off, and every method name. Non-trivial: some methods usable and some not, or a method name outside the list.',
         assumptions=['friction_factor returns the laminar solution below Re = 2040 whatever the method, as documented', 'inputs exactly on a range limit are not judged', 'a method whose own correlation raises outside its range counts as usable when the dispatcher raises the same'])
TP = {n: (n.split(' ')[0].replace('-', '_') if n != 'Chisholm rough' else 'Chisholm', {}) for n in ('Zhang_Webb', 'Lockhart_Martinelli', 'Bankoff', 'Baroczy_Chisholm', 'Chisholm', 'Gronnerud', 'Jung_Radermacher', 'Muller_Steinhagen_Heck', 'Theissing', 'Wang_Chiang_Lu', 'Yu_France', 'Kim_Mudawar', 'Friedel', 'Hwang_Kim', 'Mishima_Hibiki', 'Tran', 'Xu_Fang', 'Zhang_Hibiki_Mishima', 'Chen_Friedel', 'Lombardi_Pedrocchi')}
TP.update({'Chisholm rough': ('Chisholm', dict(rough_correction=True)), 'Zhang_Hibiki_Mishima adiabatic gas': ('Zhang_Hibiki_Mishima', dict(flowtype='adiabatic gas')), 'Zhang_Hibiki_Mishima flow boiling': ('Zhang_Hibiki_Mishima', dict(flowtype='flow boiling')), 'Beggs-Brill': ('Beggs_Brill', dict(acceleration=False))})
VO = {n: (n.replace(' ', '_'), {}) for n in ('Thom', 'Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Turner Wallis', 'homogeneous', 'Chisholm Armand', 'Armand', 'Nishino Yamazaki', 'Guzhov', 'Kawahara', 'Baroczy', 'Tandon Varma Gupta', 'Harms', 'Domanski Didion', 'Graham', 'Yashar', 'Huq_Loth', 'Kopte_Newell_Chato', 'Steiner', 'Rouhani 1', 'Rouhani 2', 'Nicklin Wilkes Davidson', 'Gregory_Scott', 'Dix', 'Sun Duffey Peng', 'Xu Fang voidage', 'Woldesemayat Ghajar')}
VI = {n: (n.replace(' ', '_'), {}) for n in ('Beattie Whalley', 'Fourar Bories', 'Duckler', 'McAdams', 'Cicchitti', 'Lin Kwok')}
PB = {'Ergun': 'Ergun', 'Tallmadge': 'Tallmadge', 'Kuo & Nydegger': 'Kuo_Nydegger', 'Jones & Krier': 'Jones_Krier', 'Carman': 'Carman', 'Hicks': 'Hicks', 'Brauer': 'Brauer', 'KTA': 'KTA', 'Fahien & Schriver': 'Fahien_Schriver', 'Idelchik': 'Idelchik', 'Erdim, Akgiray & Demir': 'Erdim_Akgiray_Demir', 'Harrison, Brunner & Hecker': 'Harrison_Brunner_Hecker', 'Montillet, Akkari & Comiti': 'Montillet_Akkari_Comiti', 'Guo, Sun, Zhang, Ding & Liu': 'Guo_Sun'}
PB = {k: (v, {}) for k, v in PB.items()}
# documented ranges: Re min, Re max, eD min, eD max
FM = {'Moody': (4e3, 1e8, 0, None), 'Alshul_1952': (None,)*4, 'Wood_1966': (4e3, 5e7, 1e-5, .04), 'Churchill_1973': (None,)*4, 'Eck_1973': (None,)*4, 'Jain_1976': (5e3, 1e7, 4e-5, .05), 'Swamee_Jain_1976': (5e3, 1e8, 1e-6, .05), 'Churchill_1977': (None,)*4, 'Chen_1979': (4e3, 4e8, 1e-7, .05), 'Round_1980': (4e3, 4e8, 0, .05), 'Shacham_1980': (4e3, 4e8, None, None), 'Barr_1981': (None,)*4,
      'Zigrang_Sylvester_1': (4e3, 1e8, 4e-5, .05), 'Zigrang_Sylvester_2': (4e3, 1e8, 4e-5, .05), 'Haaland': (4e3, 1e8, 1e-6, .05), 'Serghides_1': (None,)*4, 'Serghides_2': (None,)*4, 'Tsal_1989': (4e3, 1e8, 0, .05), 'Manadilli_1997': (5245, 1e8, 0, .05), 'Romeo_2002': (3e3, 1.5e8, 0, .05), 'Sonnad_Goudar_2006': (4e3, 1e8, 1e-6, .05), 'Rao_Kumar_2007': (None,)*4, 'Buzzelli_2008': (None,)*4, 'Avci_Karagoz_2009': (None,)*4,
      'Papaevangelo_2010': (1e4, 1e7, 1e-5, .001), 'Brkic_2011_1': (None,)*4, 'Brkic_2011_2': (None,)*4, 'Fang_2011': (3e3, 1e8, 0, .05), 'Clamond': (0, None, 0, None), 'Colebrook': (0, None, 0, None)}
DR = {'Stokes': (None, .3), 'Barati': (None, 2e5), 'Barati_high': (None, 1e6), 'Rouse': (None, 2e5), 'Engelund_Hansen': (None, 2e5), 'Clift_Gauvin': (None, 2e5), 'Morsi_Alexander': (None, 2e5), 'Graf': (None, 2e5), 'Flemmer_Banks': (None, 2e5), 'Khan_Richardson': (None, 2e5), 'Swamee_Ojha': (None, 1.5e5), 'Yen': (None, 2e5), 'Haider_Levenspiel': (None, 2e5), 'Cheng': (None, 2e5), 'Terfous': (.1, 5e4), 'Mikhailov_Freire': (None, 118300), 'Clift': (None, 1e6), 'Ceylan': (.1, 1e6), 'Almedeij': (None, 1e6), 'Morrison': (None, 1e6), 'Song_Xu': (None, 1e3)}
CL = {'White': 'White', 'Mori Nakayama laminar': 'Mori_Nakayama', 'Schmidt laminar': 'Schmidt'}
CT = {'Schmidt turbulent': 'Schmidt', 'Mori Nakayama turbulent': 'Mori_Nakayama', 'Prasad': 'Prasad', 'Czop': 'Czop', 'Guo': 'Guo', 'Ju': 'Ju', 'Mandal Nigam': 'Mandal_Nigam', 'Srinivasan turbulent': 'Srinivasan'}
CR = {'Seth Stahel': 'Seth_Stahel', 'Ito': 'Ito', 'Kubair Kuloor': 'Kubair_Kuloor', 'Kutateladze Borishanskii': 'Kutateladze_Borishanskii', 'Schmidt': 'Schmidt', 'Srinivasan': 'Srinivasan'}
JUNK = ['', 'x', 'colebrook', 'Chisholm ', 'zivi', 'ERGUN', 'None', 'Rennels2']
def attempt(f, **kw):
    try: return f(**kw)
    except Exception as x: return x
def same(a, b, what):
    if isinstance(a, Exception) or isinstance(b, Exception): ensure(type(a) is type(b), '%s: %r, direct %r', what, a, b)
    else:
        if isinstance(a, complex) or isinstance(b, complex): ensure(abs(a - b) <= 1e-12*abs(a), '%s: %r, direct %r', what, a, b)
        else: ensure(a == b or (a != a and b != b) or abs(a - b) <= 1e-12*abs(a), '%s: %r, direct %r', what, a, b)
def contract(ctx, table, disp, listing, given, absent, required, fixed, default, lists=True):
    """given: arguments passed; absent: optional arguments left out; table: name -> (function, extra arguments)"""
    names = listing(**fixed) if lists else sorted(table)
    ensure(len(set(names)) == len(names) and set(names) <= set(table), 'methods listed: %r', names)
    ensure(set(listing(**fixed, check_ranges=False)) == set(names), 'check_ranges')
    for n, (fn, extra) in table.items():
        f = getattr(fluids, fn); sig = inspect.signature(f).parameters
        kw = {k: v for k, v in given.items() if k in sig}; missing = [k for k in absent if k in sig and sig[k].default is inspect.Parameter.empty or (k == 'Dt' and k in sig)]
        usable = not missing
        ensure((n in names) == usable, '%s is %s with %r absent', n, 'listed' if n in names else 'not listed', absent)
        got = attempt(disp, Method=n, **fixed)
        if not usable and 'Dt' in missing: ensure(isinstance(got, (TypeError, ValueError)) or got == attempt(f, **kw, **extra), '%s without Dt: %r', n, got)    # three wall-effect correlations, some usable in an infinite bed
        elif not usable: ensure(isinstance(got, (TypeError, ValueError)), '%s gave %r with %r absent', n, got, missing)
        else: same(got, attempt(f, **kw, **extra), n)
    if not 0 < len(names) < len(table): ctx.trivial()
    want = default(set(names))
    if want is None: raises(ValueError, disp, what='nothing usable', **fixed); raises(ValueError, disp, what='nothing usable, Method=None', Method=None, **fixed)
    else: same(attempt(disp, **fixed), attempt(disp, Method=want, **fixed), 'default'); same(attempt(disp, Method=None, **fixed), attempt(disp, Method=want, **fixed), 'Method=None')
def split(req, optional, keep): return {**req, **{k: v for k, v in optional.items() if keep[k]}}, [k for k in optional if not keep[k]]
FL = dict(m=lf(1e-3, 50), x=uf(.001, .999), rhol=lf(400, 2000), D=lf(5e-4, 1), rhog=lf(.05, 100), mul=lf(1e-5, .1), mug=lf(5e-6, 5e-5), sigma=lf(1e-3, .1), P=lf(1e4, 2e7), Pc=lf(5e5, 3e7))
some = ints(0, 999).map(lambda i: i % 4 > 0)
@P.sub(rec(**FL, L=lf(.1, 100), roughness=inear(lf(1e-7, 1e-4), [0.]), angle=uf(-90, 90), keep=rec(rhog=some, mul=some, mug=some, sigma=some, P=some, Pc=some, angle=some), junk=pick(JUNK)), n=500, thorough=30000)
def two_phase_dP(ctx, keep, junk, **c):
    c['roughness'] = min(c['roughness'], .04*c['D'])
    a, absent = split({k: c[k] for k in ('m', 'x', 'rhol', 'D', 'L', 'roughness')}, {k: c[k] for k in ('rhog', 'mul', 'mug', 'sigma', 'P', 'Pc', 'angle')}, keep)
    kw = dict(a) if len(absent) % 2 else {**a, **{k: None for k in absent}}
    def default(s): return next((q for q in ('Kim_Mudawar', 'Chisholm', 'Zhang_Webb', 'Lombardi_Pedrocchi') if q in s), None)
    contract(ctx, TP, fluids.two_phase_dP, fluids.two_phase_dP_methods, a, absent, (), kw, default)
    raises(ValueError, fluids.two_phase_dP, what='unknown method', Method=junk, **kw)
@P.sub(rec(**FL, angle=uf(-90, 90), g=uf(1, 20), keep=rec(D=some, m=some, mul=some, mug=some, sigma=some, P=some, Pc=some), withg=pick(False, True), junk=pick(JUNK)), n=500, thorough=30000)
def voidage(ctx, keep, junk, withg, **c):
    a, absent = split({k: c[k] for k in ('x', 'rhol', 'rhog', 'angle')}, {k: c[k] for k in ('D', 'm', 'mul', 'mug', 'sigma', 'P', 'Pc')}, keep)
    if withg: a['g'] = c['g']
    kw = dict(a) if len(absent) % 2 else {**a, **{k: None for k in absent}}
    contract(ctx, VO, fluids.liquid_gas_voidage, fluids.liquid_gas_voidage_methods, a, absent, (), kw, lambda s: 'homogeneous')
    raises(ValueError, fluids.liquid_gas_voidage, what='unknown method', Method=junk, **kw)
@P.sub(rec(**{k: FL[k] for k in ('x', 'rhol', 'rhog', 'mul', 'mug')}, keep=rec(rhol=pick(True, False), rhog=pick(True, False)), junk=pick(JUNK)), n=300, thorough=10000)
def viscosity(ctx, keep, junk, **c):
    a, absent = split({k: c[k] for k in ('x', 'mul', 'mug')}, {k: c[k] for k in ('rhol', 'rhog')}, keep)
    names = fluids.gas_liquid_viscosity_methods(**{k: a.get(k) for k in ('rhol', 'rhog')})
    ensure(set(fluids.gas_liquid_viscosity_methods(**{k: a[k] for k in a if k in ('rhol', 'rhog')}, check_ranges=True)) == set(names), 'check_ranges')
    contract(ctx, VI, fluids.gas_liquid_viscosity, lambda **k: fluids.gas_liquid_viscosity_methods(**{q: v for q, v in k.items() if q in ('rhol', 'rhog', 'check_ranges')}), a, absent, (), a, lambda s: 'McAdams')
    raises(ValueError, fluids.gas_liquid_viscosity, what='unknown method', Method=junk, **a)
@P.sub(rec(dp=lf(1e-4, .1), voidage=uf(.3, .7), vs=lf(1e-4, 5), rho=lf(.5, 1500), mu=lf(1e-5, .01), L=lf(.01, 10), r=lf(2, 300), Dt=pick(True, False), sph=opt(uf(.3, 1)), junk=pick(JUNK)), n=400, thorough=20000)
def packed_bed(ctx, r, sph, Dt, junk, **c):
    """particle sphericity multiplies the diameter given to every correlation"""
    a = dict(c); eff = {**c, 'dp': c['dp']*(sph or 1)}; absent = []
    if Dt: a['Dt'] = eff['Dt'] = c['dp']*r
    else: absent = ['Dt']
    disp = lambda **k: fluids.dP_packed_bed(**{**k, **({'sphericity': sph} if sph else {})})
    contract(ctx, PB, disp, fluids.dP_packed_bed_methods, eff, absent, (), a, lambda s: 'Harrison, Brunner & Hecker' if Dt else 'Erdim, Akgiray & Demir')
    raises(ValueError, disp, what='unknown method', Method=junk, **a)
def between(v, lo, hi): return (lo is None or v > lo) and (hi is None or v < hi)
@P.sub(rec(Re=inear(lf(1, 1e10), [2039.9, 2040.1, 3999., 5100.]), eD=inear(lf(1e-8, .3), [0.]), Darcy=pick(True, False), junk=pick(JUNK)), n=400, thorough=20000)
def friction(ctx, Re, eD, Darcy, junk):
    lam = Re < 2040; q = 1 if Darcy else .25
    if any(Re == t for f in FM.values() for t in f[:2]) or (eD and any(eD == t for f in FM.values() for t in f[2:])): raise SkipCase('on a limit')
    names = fluids.friction_factor_methods(Re, eD); every = fluids.friction_factor_methods(Re, eD, check_ranges=False)
    ensure(sorted(every) == sorted([*FM, 'laminar']), 'unchecked list %r', every); ensure(len(set(names)) == len(names), 'repeated')
    if lam: ensure(names == ['laminar'], 'laminar flow: %r', names)
    else:
        want = {n for n, (a, b, lo, hi) in FM.items() if between(Re, a, b) and (lo is None or eD >= lo) and (hi is None or eD <= hi)}
        ensure(set(names) - {'Moody'} == want - {'Moody'}, 'listed wrongly: %r', set(names) ^ want); ensure('Moody' in names if 4e3 < Re < 1e8 and eD < .01 else 'Moody' not in names or (4e3 < Re < 1e8 and eD < 1), 'Moody')
    for n in [*FM, 'laminar']:
        got = attempt(fluids.friction_factor, Re=Re, eD=eD, Method=n, Darcy=Darcy)
        want = fluids.friction_laminar(Re) if lam or n == 'laminar' else attempt(getattr(fluids, n), Re=Re, eD=eD, **({'fast': False} if n == 'Clamond' else {}))
        same(got, want if isinstance(want, Exception) else want*q, n)
        m = attempt(fluids.one_phase_dP, m=Re*pi*.1*1e-3/4, rho=900., mu=1e-3, D=.1, roughness=eD*.1, L=3., Method=n)
        if lam and abs(Re - 2040) < 1e-6: continue
        if not isinstance(want, Exception) and not isinstance(want, complex): V = Re*1e-3/(900*.1); close(m, want*3/.1*900*V*V/2, 1e-7, what='one_phase_dP with ' + n)
    same(fluids.friction_factor(Re, eD, Darcy=Darcy), fluids.friction_factor(Re, eD, 'Clamond', Darcy), 'default'); same(fluids.friction_factor(Re, eD, Method=None, Darcy=Darcy), fluids.friction_factor(Re, eD, 'Clamond', Darcy), 'Method=None')
    if not lam: raises(ValueError, fluids.friction_factor, Re, eD, junk, what='unknown method'); raises(ValueError, fluids.one_phase_dP, m=10., rho=900., mu=1e-3, D=.1, Method=junk, what='unknown method')
    if lam or len(names) == len(FM): ctx.trivial()
@P.sub(rec(Re=inear(lf(1e-4, 2e6), [.05, .2, .099999, 212963., 212964.]), junk=pick(JUNK), D=lf(1e-5, .05), dr=lf(1, 5e3), mu=lf(1e-5, .1)), n=400, thorough=20000)
def drag(ctx, Re, junk, D, dr, mu):
    if any(Re == t for r in DR.values() for t in r): raise SkipCase('on a limit')
    names = fluids.drag_sphere_methods(Re); ensure(len(set(names)) == len(names) and set(names) == {n for n, r in DR.items() if between(Re, *r)}, 'listed wrongly: %r', set(names) ^ {n for n, r in DR.items() if between(Re, *r)})
    ensure(sorted(fluids.drag_sphere_methods(Re, check_ranges=False)) == sorted(DR), 'unchecked list'); ensure(set(fluids.drag_sphere_methods(Re, True)) == set(names), 'check_ranges=True')
    for n in DR: same(attempt(fluids.drag_sphere, Re=Re, Method=n), attempt(getattr(fluids, n), Re=Re), n)
    raises(ValueError, fluids.drag_sphere, Re, junk, what='unknown method')
    want = fluids.Stokes(Re) if Re < .01 else ((Re - .01)*fluids.Barati(Re) + (.1 - Re)*fluids.Stokes(Re))/.09 if Re <= .1 else fluids.Barati(Re) if Re <= 212963.26846 else fluids.Barati_high(Re)
    close(fluids.drag_sphere(Re), want, 1e-9, what='default'); same(fluids.drag_sphere(Re), fluids.drag_sphere(Re, None), 'Method=None')
    lam = 9.80665*D**3*dr*1000./(18*mu*mu)
    if lam > .02: raises(ValueError, fluids.v_terminal, D=D, rhop=1000. + dr, rho=1000., mu=mu, Method=junk, what='unknown method')
@P.sub(rec(Re=lf(10, 1e6), Di=lf(.005, .3), r=lf(2, 100), rough=inear(lf(1e-6, 1e-3), [0.]), rec_=pick([None, *CR]), lam=pick([None, *CL]), tur=pick([None, *CT]), Darcy=pick(True, False), junk=pick(JUNK)), n=400, thorough=20000)
def curved(ctx, Re, Di, r, rough, rec_, lam, tur, Darcy, junk):
    Dc = Di*r; rough *= Di; H = lambda k, n: getattr(fluids, 'helical_%s_%s' % (k, n)); q = 1 if Darcy else .25
    crit = {n: H('transition_Re', f)(Di, Dc) for n, f in CR.items()}; g = lambda n: H('laminar_fd', CL[n])(Re, Di, Dc) if n in CL else H('turbulent_fd', CT[n])(Re, Di, Dc, **({'roughness': rough} if CT[n] in ('Schmidt', 'Prasad', 'Ju', 'Mandal_Nigam') else {}))
    for n in CR: same(fluids.helical_Re_crit(Di, Dc, n), crit[n], n)
    same(fluids.helical_Re_crit(Di, Dc), crit['Schmidt'], 'default transition'); raises(ValueError, fluids.helical_Re_crit, Di, Dc, junk, what='unknown transition')
    ensure(sorted(fluids.friction_factor_curved_methods(Re, Di, Dc, rough)) == sorted(CT if Re >= crit['Schmidt'] else CL), 'listed'); ensure(sorted(fluids.friction_factor_curved_methods(Re, Di, Dc, rough, check_ranges=False)) == sorted([*CT, *CL]), 'unchecked list')
    opts = {k: v for k, v in (('Rec_method', rec_), ('laminar_method', lam), ('turbulent_method', tur)) if v}
    for n in [*CL, *CT]: same(attempt(fluids.friction_factor_curved, Re=Re, Di=Di, Dc=Dc, roughness=rough, Method=n, Darcy=Darcy, **opts), g(n)*q, n)
    n = (tur or 'Schmidt turbulent') if Re >= crit[rec_ or 'Schmidt'] else (lam or 'Schmidt laminar')
    same(fluids.friction_factor_curved(Re, Di, Dc, rough, Darcy=Darcy, **opts), g(n)*q, 'chosen by Reynolds number')
    raises(ValueError, fluids.friction_factor_curved, Re, Di, Dc, Method=junk, what='unknown method'); raises(ValueError, fluids.friction_factor_curved, Re, Di, Dc, Rec_method=junk, what='unknown transition')
    raises(ValueError, fluids.friction_factor_curved, Re, Di, Dc, laminar_method=junk, turbulent_method=junk, what='unknown method of the regime')
# fittings: documented methods, documented default first
FI = {'entrance_sharp': ['Rennels', 'Swamee', 'Blevins', 'Idelchik', 'Crane', 'Miller'], 'entrance_distance': ['Rennels', 'Miller', 'Idelchik', 'Harris', 'Crane'], 'entrance_angled': ['Idelchik'], 'entrance_rounded': ['Rennels', 'Crane', 'Miller', 'Idelchik', 'Harris', 'Swamee'], 'entrance_beveled': ['Rennels', 'Idelchik'], 'bend_rounded': ['Rennels', 'Crane', 'Crane standard', 'Miller', 'Swamee', 'Ito'],
      'bend_miter': ['Rennels', 'Miller', 'Crane', 'Blevins'], 'contraction_sharp': ['Rennels', 'Hooper', 'Crane'], 'contraction_round': ['Rennels', 'Miller', 'Idelchik'], 'contraction_conical': ['Rennels', 'Idelchik', 'Crane', 'Swamee', 'Blevins', 'Miller', 'Hooper'], 'diffuser_sharp': ['Rennels', 'Hooper'], 'diffuser_conical': ['Rennels', 'Crane', 'Miller', 'Swamee', 'Idelchik', 'Hooper']}
@P.sub(rec(fn=pick(sorted(FI)), D=lf(.01, 1), b=uf(.2, .95), u=uf(.05, 1), ang=uf(10, 80), Re=lf(1e4, 1e7), rough=inear(lf(1e-7, 1e-4), [0.]), fd=uf(.008, .03), byRe=pick(True, False), junk=pick(JUNK)), n=800, thorough=30000)
def fittings(ctx, fn, D, b, u, ang, Re, rough, fd, byRe, junk):
    """every documented method evaluates, the default is the documented one, unknown names are rejected"""
    f = getattr(fluids, fn); rough *= D; fr = dict(Re=Re, roughness=rough) if byRe else dict(fd=fd)
    a = {'entrance_sharp': {}, 'entrance_distance': dict(Di=D, t=u*.05*D, l=u*D), 'entrance_angled': dict(angle=ang), 'entrance_rounded': dict(Di=D, rc=u*D), 'entrance_beveled': dict(Di=D, l=u*D*.3, angle=ang), 'bend_rounded': dict(Di=D, angle=ang, rc=D*(1 + 3*u), **{**fr, 'Re': Re}), 'bend_miter': dict(angle=ang, Di=D, Re=Re, roughness=rough), 'contraction_sharp': dict(Di1=D, Di2=D*b, **fr, **({} if byRe else dict(Re=Re))), 'contraction_round': dict(Di1=D, Di2=D*b, rc=u*.1*D*b), 'contraction_conical': dict(Di1=D, Di2=D*b, angle=ang, fd=fd, Re=Re, roughness=rough), 'diffuser_sharp': dict(Di1=D*b, Di2=D, fd=fd, Re=Re), 'diffuser_conical': dict(Di1=D*b, Di2=D, angle=ang, fd=fd, Re=Re, roughness=rough)}[fn]
    if fn == 'bend_rounded': a['roughness'] = rough
    res = {n: f(method=n, **a) for n in FI[fn]}
    for n, K in res.items(): ensure(isinstance(K, (int, float)) and isfinite(K), '%s: %r', n, K)
    if len(res) > 3: ensure(len({round(v, 12) for v in res.values()}) >= 2, 'all methods alike: %r', res)
    ensure(f(**a) == res[FI[fn][0]], 'default %r, %s %r', f(**a), FI[fn][0], res[FI[fn][0]])
    raises(ValueError, f, method=junk if junk not in FI[fn] else 'nothing', what='unknown method', **a)
    if len(FI[fn]) < 2: ctx.trivial()
@P.sub(rec(Di1=lf(.02, .5), r=flist(uf(1.05, 2), 2, 5), ls=flist(lf(.1, 3), 5, 5), fd=uf(.008, .03), m=pick(['Rennels', 'Crane', 'Swamee', 'Idelchik']), junk=pick(JUNK)), n=200, thorough=10000)
def staged(ctx, Di1, r, ls, fd, m, junk):
    """diffuser_conical_staged: the stages' coefficients, each referred to the first velocity; the method reaches every stage"""
    D = [Di1]
    for q in r: D.append(D[-1]*q)
    l = [x*D[j] for j, x in enumerate(ls[:len(r)])]
    K = lambda m: sum(fluids.diffuser_conical(Di1=D[j], Di2=D[j + 1], l=l[j], fd=fd, method=m) for j in range(len(r)))
    got = attempt(fluids.diffuser_conical_staged, Di1=D[0], Di2=D[-1], DEs=D[1:-1], ls=l, fd=fd, method=m); want = attempt(K, m=m)
    if isinstance(want, Exception): same(got, want, 'stage'); return
    close(got, want, 1e-12, what='sum of stages'); close(fluids.diffuser_conical_staged(Di1=D[0], Di2=D[-1], DEs=D[1:-1], ls=l, fd=fd), K('Rennels'), 1e-12, what='default'); raises(ValueError, fluids.diffuser_conical_staged, Di1=D[0], Di2=D[-1], DEs=D[1:-1], ls=l, fd=fd, method=junk, what='unknown method')
@P.sub(rec(x=uf(.05, .95), rhol=lf(500, 1500), rhog=lf(.5, 100), hor=pick(True, False), junk=pick(JUNK)), n=200, thorough=5000)
def separator(ctx, x, rhol, rhog, hor, junk):
    f = fluids.K_separator_Watkins; R = {m: f(x, rhol, rhog, horizontal=hor, method=m) for m in ('spline', 'blackwell', 'branan')}
    ensure(f(x, rhol, rhog, horizontal=hor) == R['spline'], 'default'); ensure(len(set(R.values())) == 3, 'methods alike %r', R); raises(ValueError, f, x, rhol, rhog, method=junk, what='unknown method')
    for m in R: close(f(x, rhol, rhog, horizontal=True, method=m), 1.25*f(x, rhol, rhog, horizontal=False, method=m), 1e-12, what='horizontal')
