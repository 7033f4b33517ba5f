"""C01: the unit-aware namespace (fluids.units) against plain SI calls."""
from math import *
import random, warnings, types, functools, inspect
import numpy as np
import fluids, fluids.units as U
from fluids.units import u
from vf import corpus
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C01', rule='Recorded valid calls of every public function moved at random, every argument given in a random compatible unit, positionally or by name, as scalars or arrays; results converted to random units. Non-trivial: some argument or result has a dimension.',
         assumptions=['documented units as frozen in props/data/docunits.json; conversion factors are the check\'s own', 'exactly equal results are expected for the converted magnitudes; magnitudes to 1e-11', 'PSD classes and exchangers with tuples of quantities are undocumented or unsupported'])
ALT = {
 'm': [('ft', .3048), ('inch', .0254), ('cm', .01), ('mm', .001), ('km', 1e3), ('mile', 1609.344), ('um', 1e-6)], 'm^2': [('ft**2', .3048**2), ('cm**2', 1e-4), ('mm*m', 1e-3)], 'm^3': [('liter', 1e-3), ('ft**3', .3048**3), ('gallon', 3.785411784e-3)],
 'Pa': [('kPa', 1e3), ('bar', 1e5), ('psi', 6894.757293168361), ('atm', 101325.), ('torr', 101325/760.), ('MPa', 1e6), ('N/mm**2', 1e6)], 'Pa*s': [('cP', 1e-3), ('lb/(ft*s)', .45359237/.3048), ('poise', .1), ('g/(cm*s)', .1)],
 'kg/s': [('lb/hour', .45359237/3600), ('g/s', 1e-3), ('tonne/day', 1e3/86400)], 'kg/m^3': [('lb/ft**3', .45359237/.3048**3), ('g/cm**3', 1e3), ('g/liter', 1.)], 'm/s': [('ft/s', .3048), ('km/hour', 1/3.6), ('mile/hour', .44704)],
 'm^3/s': [('ft**3/min', .3048**3/60), ('gallon/min', 3.785411784e-3/60), ('liter/hour', 1e-3/3600)], 'K': [('degR', 5/9.), ('mK', 1e-3)], 'N/m': [('dyn/cm', 1e-3), ('mN/m', 1e-3), ('lbf/ft', 4.4482216152605/.3048)],
 'm^2/s': [('cSt', 1e-6), ('ft**2/hour', .3048**2/3600)], 'm/s^2': [('ft/s**2', .3048), ('cm/s**2', .01)], 'degrees': [('radian', 180/pi), ('arcminute', 1/60.)], 'W': [('hp', 550*.3048*4.4482216152605), ('kW', 1e3), ('ft*lbf/s', .3048*4.4482216152605)],
 'J/kg': [('kJ/kg', 1e3), ('m**2/s**2', 1.), ('cal/g', 4184.)], 'J/kg/K': [('cal/g/K', 4184.), ('kJ/kg/degR', 1800.)], 'W/m/K': [('W/cm/K', 100.), ('W/ft/degR', 1.8/.3048)], 'W/m^2/K': [('kW/m**2/K', 1e3), ('W/ft**2/degR', 1.8/.3048**2)], 'W/m^2': [('W/cm**2', 1e4), ('kW/m**2', 1e3)],
 'kg/s/m^2': [('lb/ft**2/hour', .45359237/.3048**2/3600), ('g/cm**2/s', 10.)], 's': [('minute', 60.), ('hour', 3600.), ('ms', 1e-3)], 'Hz': [('1/minute', 1/60.), ('kHz', 1e3)], '1/K': [('1/degR', 1.8)], 'g/mol': [('kg/mol', 1e3), ('kg/kmol', 1.), ('lb/kmol', .45359237)],
 'm^3/hr': [('liter/s', 3.6), ('ft**3/min', .3048**3*60)], 'gallons/minute': [('liter/s', 60/3.785411784), ('m**3/hour', 1/(60*3.785411784e-3))], 'm^2/m^3': [('1/ft', 1/.3048), ('1/cm', 100.)], '1/m': [('1/ft', 1/.3048), ('1/mm', 1e3)], 'in': [('cm', 1/2.54), ('ft', 12.)], 'Pa/m': [('psi/ft', 6894.757293168361/.3048), ('kPa/km', 1.)],
 '1/ft': [('1/m', .3048)], 'revolutions/s': [('rpm', 1/60.), ('turn/minute', 1/60.)], 'rpm': [('turn/s', 60.), ('turn/minute', 1.)], 'm^0.5/s': [('cm**0.5/s', .1), ('ft**0.5/s', .3048**.5)], 's/m^(1/3)': [('minute/m**(1/3)', 60.)], 'm^3/(kg*Pa)': [('m**3/(kg*kPa)', 1e-3), ('liter/(g*Pa)', 1.)], '1/Pa': [('1/kPa', 1e-3)],
 'm^2/m': [('cm', .01), ('ft', .3048)], 'dimensionless': [('percent', .01)], 'kg': [('lb', .45359237), ('g', 1e-3)], 'N': [('lbf', 4.4482216152605), ('kN', 1e3)], 'V': [('kV', 1e3)], 'A': [('mA', 1e-3)], 'J/mol': [('kJ/mol', 1e3), ('cal/mol', 4.184)], 'ft/s': [('m/s', 1/.3048), ('cm/s', .01/.3048)], 'kg/m^2': [('g/cm**2', 10.)], 'lb^0.5/(ft^0.5*s)': [('kg**0.5/(m**0.5*s)', (.3048/.45359237)**.5)],
 'm^0.25/s^0.5': [('cm**0.25/s**0.5', .01**.25)], 's^0.5/m^0.25': [('s**0.5/cm**0.25', 100**.25)], 'rpm*m^0.75/s^0.5': [('rpm*cm**0.75/s**0.5', .01**.75)], 'seconds': [('minute', 60.)], 'm^3/s ': []}
ALT.update({'kg/m^2/s': ALT['kg/s/m^2'], 'revolutions/second': ALT['revolutions/s']})
DIM = {k: k for k in ALT}
OFFSET = {'T', 'T1', 'T2', 'Ts', 'Tavg', 'Tst', 'C'}
SKIP = {'A_multiple_hole_cylinder', 'V_multiple_hole_cylinder', 'cdf_Rosin_Rammler', 'pdf_Rosin_Rammler', 'pdf_Rosin_Rammler_basis_integral'}
NAMES = sorted(set(corpus.CALLS) - SKIP)
SOLVED = dict(nu_mu_converter=['mu', 'nu'], isothermal_gas=['P1', 'P2', 'L', 'D', 'm'], differential_pressure_meter_solver=['D', 'D2', 'P1', 'P2', 'm'], isentropic_work_compression=['P1', 'P2', 'W', 'eta'], liquid_jet_pump_ancillary=['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2'])
for f_ in ('Panhandle_A', 'Panhandle_B', 'Weymouth', 'Spitzglass_high', 'Spitzglass_low', 'Oliphant', 'Fritzsche', 'Muller', 'IGT'): SOLVED[f_] = ['L', 'D', 'P1', 'P2', 'Q']
def unit_of(fn, k): return corpus.UNITS[fn]['in'].get(k, ['dimensionless'])[0]
def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a: return b != b
    return a == b
@functools.lru_cache(None)
def parsed(s): return u.parse_expression(s)
def give(fn, k, v, c):
    """v (documented unit) as a quantity in the unit number c; the magnitude it converts to"""
    un = unit_of(fn, k)
    if v is None or isinstance(v, (str, bool)) or not isinstance(v, (int, float, list, tuple)): return v, v
    if isinstance(v, (list, tuple)):
        if un == 'dimensionless' or not all(isinstance(x, (int, float)) for x in v): return v, v
        q = np.array(v, float)/ALT[un][c % len(ALT[un])][1]*parsed(ALT[un][c % len(ALT[un])][0]); return q, q.to(un).magnitude
    if un == 'dimensionless':
        if isinstance(v, int) or c % 3 == 0 or k in corpus.FIXED: return v, v
        if c % 3 == 1: q = u.Quantity(v, 'dimensionless'); return q, v
        q = u.Quantity(v/.01, 'percent'); m = q.to_base_units().magnitude
        close(m, v, rtol=1e-13, what='percent'); return q, m
    if un == 'degC': q = [u.Quantity(v, 'degC'), u.Quantity(v*1.8 + 32, 'degF'), u.Quantity(v + 273.15, 'K')][c % 3]
    elif un == 'K' and k in OFFSET and c % 2: q = u.Quantity(v - 273.15, 'degC') if c % 4 == 1 else u.Quantity(v*1.8 - 459.67, 'degF')
    else:
        n, f = ALT[un][c % len(ALT[un])]; q = v/f*parsed(n) if c % 7 else u.Quantity(v, un)
    m = q.to(un).magnitude; close(float(m), float(v), rtol=1e-11, atol=1e-9 if un == 'degC' else 0, what='conversion of %s' % k); return q, m
def out_units(fn, r, kw):
    out = corpus.UNITS[fn]['out']
    if fn in SOLVED:
        miss = [k for k in SOLVED[fn] if kw.get(k) is None]; return [unit_of(fn, miss[0])] if len(miss) == 1 else [unit_of(fn, k) for k in miss]
    return [x for _, x in out]
def compare(fn, a, b, un, c, what):
    if isinstance(a, (str, bool)) or a is None or not isinstance(a, (int, float, complex, np.ndarray, list)): ensure(b == a or getattr(b, 'magnitude', None) == a, '%s: %r, plain %r' % (what, b, a)); return
    if isinstance(a, list) and any(isinstance(x, str) for x in a): ensure(list(b) == a, '%s: %r, plain %r' % (what, b, a)); return
    ensure(hasattr(b, 'magnitude'), '%s: no quantity: %r' % (what, b))
    if un in ('dB', 'decibels'): ensure(str(b.units) == 'decibel', what + ': units'); ensure(np.array_equal(b.magnitude, a), what); return
    if un != 'dimensionless' and un in ALT:
        n, f = ALT[un][c % len(ALT[un])]; conv = b.to(parsed(n).units).magnitude
    else:
        f = 1.; ensure(b.dimensionless, '%s: units %s, documented %s' % (what, b.units, un)); conv = b.magnitude
    av, bv = np.ravel(np.asarray(a, float)), np.ravel(np.asarray(b.magnitude, float)); cv = np.ravel(np.asarray(conv, float)); ensure(av.shape == bv.shape, what + ': shape %r %r' % (np.shape(a), np.shape(b.magnitude)))
    for x, y, z in zip(av, bv, cv):
        if isfinite(x): close(float(z)*f, float(x), rtol=1e-11, what='%s [%s]' % (what, un))
        else: ensure(same(float(y), float(x)), what)

def move(fn, e, g, own):
    # the jet pump solver restarts from random points, for minutes where it finds no solution: recorded calls only
    return e if fn == 'liquid_jet_pump' else corpus.perturb(fn, e, [2*x - 1 for x in g], [2*x - 1 for x in own])
def names_of(fn, f): return list(inspect.signature(f).parameters)
CASE = dict(fn=pick(NAMES), i=ints(0, 39), g=flist(unit, 5, 5), own=flist(unit, 7, 7), alt=flist(ints(0, 41), 6, 6), pos=ints(0, 12), oc=ints(0, 5))
@P.sub(rec(**CASE), n=3000, thorough=60000)
def calls(ctx, fn, i, g, own, alt, pos, oc): one(ctx, fn, i, g, own, alt, pos, oc)
def one(ctx, fn, i, g, own, alt, pos, oc):
    f, F = getattr(fluids, fn), getattr(U, fn); e = move(fn, corpus.entry(fn, i), g, own); q, m = {}, {}
    for j, k in enumerate(sorted(e)): q[k], m[k] = give(fn, k, e[k], alt[j % 6] + j)
    random.seed(1)
    try: want = f(**m)
    except Exception as x: raise SkipCase('plain call raises %s' % type(x).__name__)
    if isinstance(want, complex): raise SkipCase('complex plain result')
    order = names_of(fn, f); npos = 0
    while npos < min(pos, len(order)) and order[npos] in q: npos += 1
    random.seed(1); got = F(*[q[k] for k in order[:npos]], **{k: v for k, v in q.items() if k not in order[:npos]})
    un = out_units(fn, want, m); what = '%s' % fn; ctx.label('positional' if npos else 'named')
    if all(unit_of(fn, k) == 'dimensionless' for k in e) and un in ([], ['dimensionless']): ctx.trivial()
    if isinstance(want, dict):
        outs = dict(corpus.UNITS[fn]['out']); ensure(isinstance(got, dict) and set(got) == set(want), what + ': keys')
        for k in want: compare(fn, want[k], got[k], outs.get(k) or (unit_of(fn, k) if k in corpus.UNITS[fn]['in'] else 'dimensionless'), oc, '%s %s' % (fn, k))
    elif isinstance(want, tuple) or (isinstance(want, list) and len(un) > 1):
        ensure(len(got) == len(want) == len(un), what + ': %d results, %d documented' % (len(want), len(un)))
        for a, b, x in zip(want, got, un): compare(fn, a, b, x, oc, what)
    else: compare(fn, want, got, un[0] if un else 'dimensionless', oc, what)
    ensure(type(want) in (dict, tuple, list, float, int, bool, str, type(None)) or isinstance(want, (np.floating, np.ndarray)), 'type %s' % type(want))

class QUIET:
    label = trivial = staticmethod(lambda *a: None)
@P.sub(rec(s=ints(0, 10**6)), n=4, thorough=20)
def sweep(ctx, s):
    """every function, up to six recorded calls of each, moved and given units at random"""
    R = random.Random(s)
    for fn in NAMES:
        for i in R.sample(range(len(corpus.CALLS[fn])), min(6, len(corpus.CALLS[fn]))):
            a = dict(fn=fn, i=i, g=[R.random() for _ in range(5)], own=[R.random() for _ in range(7)], alt=[R.randint(0, 41) for _ in range(6)], pos=R.randint(0, 12), oc=R.randint(0, 5))
            try: one(QUIET, **a)
            except SkipCase: pass
            except Violation: raise
            except Exception as x: fail('%r: %s: %s' % (a, type(x).__name__, x))
@P.sub(rec(**dict(CASE, pts=flist(rec(g=flist(unit, 5, 5), own=flist(unit, 7, 7)), 2, 4), mask=ints(1, 255))), n=800, thorough=20000)
def arrays(ctx, fn, i, g, own, alt, pos, oc, pts, mask): many(ctx, fn, i, g, own, alt, pos, oc, pts, mask)
def many(ctx, fn, i, g, own, alt, pos, oc, pts, mask):
    f, F = getattr(fluids, fn), getattr(U, fn); e = corpus.entry(fn, i)
    if fn in ('diffuser_conical_staged', 'size_tee', 'liquid_jet_pump') or any(isinstance(v, (list, tuple)) for v in e.values()): raise SkipCase('array arguments')
    E = [move(fn, e, p['g'], p['own']) for p in pts]; mv = [k for k in sorted(e) if corpus.movable(fn, k, e[k])]; vec = [k for j, k in enumerate(mv) if mask >> (j % 8) & 1 and unit_of(fn, k) != 'dimensionless']
    if not vec: raise SkipCase('no dimensional argument')
    for x in E[1:]:
        for k in e:
            if k not in vec: x[k] = E[0][k]
    q, m = {}, [dict(x) for x in E]
    for j, k in enumerate(sorted(e)):
        c = alt[j % 6] + j
        if k in vec:
            un = unit_of(fn, k)
            if un == 'degC': q[k] = u.Quantity(np.array([x[k] for x in E], float), 'degC')
            else:
                n, fc = ALT[un][c % len(ALT[un])]; q[k] = np.array([x[k] for x in E], float)/fc*parsed(n)
            mm = q[k].to(un).magnitude
            for y, v in zip(m, mm): y[k] = float(v)
        else:
            q[k], v = give(fn, k, e[k] if not corpus.movable(fn, k, e[k]) else E[0][k], c)
            for y in m: y[k] = v
    try: want = [f(**x) for x in m]
    except Exception as x: raise SkipCase('plain call raises %s' % type(x).__name__)
    if any(not isinstance(w, (int, float, tuple)) or isinstance(w, bool) for w in want) or (isinstance(want[0], tuple) and any(not isinstance(v, (int, float)) for w in want for v in w)): raise SkipCase('not numbers')
    if any(isinstance(w, int) for w in want): raise SkipCase('integers')
    got = F(**q); un = out_units(fn, want[0], m[0])
    if isinstance(want[0], tuple):
        for k, x in enumerate(un): compare(fn, np.array([w[k] for w in want], float), got[k], x, oc, fn)
    else: compare(fn, np.array(want), got, un[0] if un else 'dimensionless', oc, fn + ' (array)')
@P.sub(rec(s=ints(0, 10**6)), n=4, thorough=20)
def array_sweep(ctx, s):
    """every function, two recorded calls of each with some of their arguments made arrays"""
    R = random.Random(s); r = lambda n: [R.random() for _ in range(n)]
    for fn in NAMES:
        for i in R.sample(range(len(corpus.CALLS[fn])), min(2, len(corpus.CALLS[fn]))):
            a = dict(fn=fn, i=i, g=r(5), own=r(7), alt=[R.randint(0, 41) for _ in range(6)], pos=0, oc=R.randint(0, 5), pts=[dict(g=r(5), own=r(7)) for _ in range(R.randint(2, 4))], mask=R.randint(1, 255))
            try: many(QUIET, **a)
            except SkipCase: pass
            except Violation: raise
            except Exception as x: fail('%r: %s: %s' % (a, type(x).__name__, x))

WRONG = ['m', 'Pa', 's', 'K', 'kg', 'A', 'mol']
@P.sub(rec(fn=pick(NAMES), i=ints(0, 39), which=ints(0, 20), how=ints(0, 7), pos=pick([False, True])), n=2500, thorough=20000)
def rejected(ctx, fn, i, which, how, pos):
    f, F = getattr(fluids, fn), getattr(U, fn); e = corpus.entry(fn, i); q = {}
    cand = [k for k in sorted(e) if unit_of(fn, k) not in ('dimensionless',) and isinstance(e[k], (int, float)) and not isinstance(e[k], bool)]
    if not cand: raise SkipCase('no dimensional argument')
    for j, k in enumerate(sorted(e)): q[k], _ = give(fn, k, e[k], j)
    k = cand[which % len(cand)]; un = unit_of(fn, k); good = 'kelvin' if un == 'degC' else un
    if how == 7: q[k] = e[k]
    else:
        w = WRONG[how]
        if u.Quantity(1, good).check(u.Quantity(1, w).dimensionality): w = 'kg*A'
        q[k] = u.Quantity(float(e[k]), w)
    try: r = F(**q)
    except Exception: return
    fail('%s accepted %s = %r, documented unit %s: %r' % (fn, k, q[k], un, r))

TU = ('m', 'm', 'degrees')
def cmp_attr(o, w, table, c):
    for a, un in table.items():
        v = getattr(w, a)
        if v is None or isinstance(v, str): ensure(getattr(o, a) is None or getattr(o, a) == v or getattr(o, a).magnitude == v, a); continue
        compare('', v, getattr(o, a), un, c, a)
def q_of(v, un, c): n, f = ALT[un][c % len(ALT[un])]; q = v/f*parsed(n); return q, float(q.to(un).magnitude)
HEAD = pick([None, 'conical', 'ellipsoidal', 'spherical', 'torispherical', 'guppy'])
@P.sub(rec(D=uf(.3, 5), ld=uf(.5, 6), horizontal=pick([True, False]), sA=HEAD, sB=HEAD, a=uf(.05, .5), b=uf(.05, .5), c=ints(0, 30), h=uf(.05, .95), byV=pick([False, False, True])), n=120, thorough=2000)
def tanks(ctx, D, ld, horizontal, sA, sB, a, b, c, h, byV):
    if not horizontal and 'guppy' in (sA, sB): raise SkipCase('guppy')
    q, m = {}, {}
    def put(k, v, un, j): q[k], m[k] = q_of(v, un, c + j)
    put('D', D, 'm', 0); put('L', D*ld, 'm', 1)
    for s, sh, x, j in (('sideA', sA, a, 2), ('sideB', sB, b, 3)):
        q[s] = m[s] = sh
        if sh and sh not in ('torispherical',): put(s + '_a', D*x*(1 if sh != 'spherical' else .9), 'm', j)
    q['horizontal'] = m['horizontal'] = horizontal; t, T = fluids.TANK(**m), U.TANK(**q)
    cmp_attr(T, t, dict(D='m', L='m', sideA_a='m', sideB_a='m', sideA_f='dimensionless', sideB_k='dimensionless', V_total='m^3', h_max='m', A='m^2', A_lateral='m^2', A_sideA='m^2', A_sideB='m^2', A_sideA_extra='m^2', L_over_D='dimensionless', sideA_a_ratio='dimensionless'), c)
    hq, hm = q_of(t.h_max*h, 'm', c + 1); compare('', t.V_from_h(hm), T.V_from_h(hq), 'm^3', c, 'V_from_h'); compare('', t.V_from_h(hm, 'full'), T.V_from_h(hq, method='full'), 'm^3', c, 'V_from_h full'); compare('', t.SA_from_h(hm), T.SA_from_h(hq), 'm^2', c, 'SA_from_h')
    vq, vm = q_of(t.V_total*h, 'm^3', c); compare('', t.h_from_V(vm), T.h_from_V(vq), 'm', c, 'h_from_V'); raises((TypeError, ValueError), T.V_from_h, hm, what='bare height'); raises((TypeError, ValueError), T.V_from_h, vq, what='volume for a height')
    bad = dict(q, D=m['D']); raises((TypeError, ValueError), U.TANK, what='bare diameter', **bad); ctx.label(str(sA))
    if byV:
        q2, m2 = dict(q, V=vq, L=None), dict(m, V=vm, L=None)
        q2.pop('D'); m2.pop('D'); q2['L_over_D'] = m2['L_over_D'] = 3.
        for z in (q2, m2): z['sideA'] = z['sideB'] = None; z.pop('sideA_a', 0); z.pop('sideB_a', 0)
        cmp_attr(U.TANK(**q2), fluids.TANK(**m2), dict(D='m', L='m', V_total='m^3'), c)

@P.sub(rec(c=ints(0, 30), x=flist(uf(.7, 1.3), 8, 8), Z=uf(0, 79000), dT=uf(-20, 20)), n=120, thorough=2000)
def objects(ctx, c, x, Z, dT):
    Q = lambda v, un, j: q_of(v, un, c + j)
    zq, zm = Q(Z, 'm', 0); A, a = U.ATMOSPHERE_1976(zq), fluids.ATMOSPHERE_1976(zm); cmp_attr(A, a, dict(T='K', P='Pa', rho='kg/m^3', v_sonic='m/s', mu='Pa*s', k='W/m/K', g='m/s^2', H='m', Z='m'), c)
    tq, tm = Q(abs(dT) + .1, 'K', 1); compare('', fluids.ATMOSPHERE_1976(zm, tm).rho, U.ATMOSPHERE_1976(zq, dT=tq).rho, 'kg/m^3', c, 'rho with dT'); raises((TypeError, ValueError), U.ATMOSPHERE_1976, zm, what='bare altitude')
    compare('', fluids.ATMOSPHERE_1976.gravity(zm), U.ATMOSPHERE_1976.gravity(zq), 'm/s^2', c, 'gravity'); compare('', fluids.ATMOSPHERE_1976.sonic_velocity(250.), U.ATMOSPHERE_1976.sonic_velocity(250*u.K), 'm/s', c, 'sonic velocity'); compare('', fluids.ATMOSPHERE_1976.density(250., 5e4), U.ATMOSPHERE_1976.density(250*u.K, 50*u.kPa), 'kg/m^3', c, 'density')
    d = dict(Do=30*x[0], pitch=5*x[1], H=20*x[2], Dt=2*x[3], Di=1.8*x[3]); q, m = {}, {}
    for j, (k, v) in enumerate(d.items()): q[k], m[k] = Q(v, 'm', j)
    cmp_attr(U.HelicalCoil(**q), fluids.HelicalCoil(**m), dict(N='dimensionless', H_total='m', Do_total='m', tube_circumference='m', tube_length='m', surface_area='m^2', inner_surface_area='m^2', inlet_area='m^2', inner_volume='m^3', annulus_area='m^2', annulus_volume='m^3', total_volume='m^3', curvature='dimensionless'), c)
    h = U.HelicalCoil(**q).helix_angle; close(float(h.to('degree').magnitude), degrees(fluids.HelicalCoil(**m).helix_angle), rtol=1e-11, what='helix angle')
    d = dict(fin_height=.0381*x[0], fin_thickness=.00135*x[1], fin_spacing=.00254*x[2], length=1.2*x[3], width=2.4*x[4], plate_thickness=.00095*x[5]); q, m = {}, {}
    for j, (k, v) in enumerate(d.items()): q[k], m[k] = Q(v, 'm', j)
    for z in (q, m): z.update(layers=2, flow='crossflow')
    cmp_attr(U.RectangularFinExchanger(**q), fluids.RectangularFinExchanger(**m), dict(fin_count='1/m', blockage_ratio='dimensionless', A_channel='m^2', P_channel='m', Dh='m', layer_thickness='m', layer_fin_count='dimensionless', A_HX_layer='m^2', A_HX='m^2', height='m', volume='m^3', A_specific_HX='m^2/m^3'), c)
    d = dict(H_inlet=5*x[0], D_outlet=30*x[1], H_outlet=60*x[2], D_inlet=55*x[3], D_base=57*x[4], D_throat=min(30*x[1], 55*x[3])*(.35 + .4*x[5]), H_throat=40*x[2]); q, m = {}, {}
    for j, (k, v) in enumerate(d.items()): q[k], m[k] = Q(v, 'm', j)
    T, t = U.HyperbolicCoolingTower(**q), fluids.HyperbolicCoolingTower(**m); cmp_attr(T, t, dict(b_lower='m', b_upper='m'), c); hq, hm = Q(20*x[6], 'm', 3); compare('', t.diameter(hm), T.diameter(hq), 'm', c, 'diameter')
    d = dict(tube_length=3*x[0], tube_diameter=.0254*x[1], fin_thickness=.0004*x[2], pitch=.0635*x[3], fin_height=.0159*x[4], tube_thickness=.0033*x[5]); q, m = {}, {}
    for j, (k, v) in enumerate(d.items()): q[k], m[k] = Q(v, 'm', j)
    q['fin_density'], m['fin_density'] = Q(400*x[6], '1/m', 2); q['angle'], m['angle'] = Q(30., 'degrees', 1)
    for z in (q, m): z.update(tube_rows=4, tube_passes=4, tubes_per_row=20, bundles_per_bay=2, parallel_bays=3)
    if m['pitch'] > m['tube_diameter']*1.05: cmp_attr(U.AirCooledExchanger(**q), fluids.AirCooledExchanger(**m), dict(A='m^2', A_per_tube='m^2', A_fin='m^2', bare_length='m', tubes='dimensionless', fin_diameter='m', pitch_parallel='m', pitch_normal='m', A_increase='dimensionless', channels='dimensionless'), c)
    d = dict(amplitude=5e-4*x[0], wavelength=3.7e-3*x[1], length=1.2*x[2], width=.3*x[3], d_port=.05*x[4], thickness=6e-4*x[5]); q, m = {}, {}
    for j, (k, v) in enumerate(d.items()): q[k], m[k] = Q(v, 'm', j)
    for z in (q, m): z.update(plates=51)
    q['chevron_angle'], m['chevron_angle'] = Q(45*x[6], 'degrees', 0) if 0 else (u.Quantity(45*x[6], 'degrees'), 45*x[6]); cmp_attr(U.PlateExchanger(**q), fluids.PlateExchanger(**m), dict(D_hydraulic='m', plate_enlargement_factor='dimensionless', A_plate_surface='m^2', A_heat_transfer='m^2'), c)

@P.sub(rec(Do=uf(.01, 1), L=lf(.01, 10), r=uf(.1, .6), n=ints(1, 3), c=ints(0, 20)), n=100, thorough=1000)
def holes(ctx, Do, L, r, n, c):
    dq, dm = q_of(Do, 'm', c); lq, lm = q_of(L, 'm', c + 1); hq, hm = q_of(Do*r/n, 'm', c + 2)
    for nm, un in (('A_multiple_hole_cylinder', 'm^2'), ('V_multiple_hole_cylinder', 'm^3')): compare('', getattr(fluids, nm)(dm, lm, [(hm, n)]), getattr(U, nm)(dq, lq, [(hq, n)]), un, c, nm)

@P.sub(rec(i=ints(0, 2), known=False), n=3, thorough=3)
def rosin_rammler(ctx, i, known):
    # known finding: the documented unit of k, (1/m)^m, cannot be expressed
    if not known: raise SkipCase('accepted finding')
    f = ['cdf_Rosin_Rammler', 'pdf_Rosin_Rammler', 'pdf_Rosin_Rammler_basis_integral'][i]; kw = dict(d=.05*u.m, k=200/u.m**2, m=2.)
    if i == 2: kw['n'] = 3
    getattr(U, f)(**kw)
