"""C47: pumps, motors, drives and electrical supply."""
from math import *
import json, os
from fluids import *
from fluids import pump as PM
from vf.core import *

P = Prop('C47', rule='Powers, loads, poles and enclosures in and beyond the tables, and on their knots, against independent interpolation in frozen copies of the tables; definitions for heads, flows, speeds, voltages. Non-trivial: every case inside the tables.',
         assumptions=['efficiencies from tables are rounded to four decimals', 'powers beyond the tables use the nearest entry'])
T = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'pump.json'))); HP = 745.69987158227022
def lin(x, xs, ys):
    if x <= xs[0]: return ys[0]
    if x >= xs[-1]: return ys[-1]
    i = max(k for k in range(len(xs)) if xs[k] <= x); t = (x - xs[i])/(xs[i + 1] - xs[i]); return ys[i]*(1 - t) + ys[i + 1]*t
def at(xs): return pick(xs) | pick(xs).flatmap(lambda e: pick([e*(1 - 1e-9), e*(1 + 1e-9), e*.99, e*1.01])) | lf(xs[0]/3, xs[-1]*3)
@P.sub(rec(hp=at(T['nema_sizes_hp'])), n=500, thorough=10000)
def sizes(ctx, hp):
    p = hp*HP; ensure([float(v) for v in nema_sizes_hp] == T['nema_sizes_hp'], 'table of sizes'); closes(nema_sizes, [v*HP for v in T['nema_sizes_hp']], rtol=1e-13, what='sizes in watts')
    if p > nema_sizes[-1]: raises(ValueError, motor_round_size, p, what='beyond the largest motor'); ctx.trivial(); return
    got = motor_round_size(p); ensure(got >= p and got in nema_sizes, 'size %r for %r' % (got, p)); ensure(not any(p <= s < got for s in nema_sizes), 'a smaller motor is large enough')
    for s in nema_sizes: ensure(motor_round_size(s) == s, 'a standard size is kept')

@P.sub(rec(hp=at(T['nema_min_P']), closed=pick([True, False, None]), poles=pick([None, 2, 4, 6, 8]), high=pick([True, False, None])), n=700, thorough=15000)
def motors(ctx, hp, closed, poles, high):
    kw = {k: v for k, v in (('closed', closed), ('poles', poles), ('high_efficiency', high)) if v is not None}
    c, p, h = bool(closed), poles or 2, bool(high)
    if h and p == 8: raises(Exception, CSA_motor_efficiency, hp*HP, what='no high efficiency table for 8 poles', **kw); ctx.trivial(); return
    got = CSA_motor_efficiency(hp*HP, **kw); ys = T['nema_%s_full_%s_%dp' % ('high' if h else 'min', 'closed' if c else 'open', p)]; xs = T['nema_high_P' if h else 'nema_min_P']
    close(got, lin(hp, xs, ys), rtol=0, atol=5.0001e-5, what='CSA efficiency'); ensure(got == round(got, 4) and 0 < got < 1, 'rounded fraction')
    if hp in xs: close(got, ys[xs.index(hp)], rtol=1e-14, what='standard size')
@P.sub(rec(hp=at(T['VFD_efficiency_powers']), load=pick([None]) | pick(T['VFD_efficiency_loads']) | uf(.016, 1) | uf(0, .05) | pick([1., 1.2, 0.])), n=700, thorough=15000)
def drives(ctx, hp, load):
    got = VFD_efficiency(hp*HP) if load is None else VFD_efficiency(hp*HP, load); l = 1. if load is None else load
    L, Ps = T['VFD_efficiency_loads'], T['VFD_efficiency_powers']; want = lin(hp, Ps, [lin(l, L, row) for row in T['VFD_efficiencies']])
    close(got, want, rtol=0, atol=5.0001e-5, what='VFD efficiency'); ensure(got == round(got, 4) and 0 < got < 1, 'rounded fraction')
@P.sub(rec(hp=at([.3, 1., 1.5, 5., 10., 15., 25., 30., 60., 75., 100.]), load=pick([None]) | uf(0, 1) | pick(T['ones']).flatmap(lambda e: pick([e*.999999, e*1.000001, e*.9])) | pick([0., 1., 1.1])), n=700, thorough=15000)
def underloaded(ctx, hp, load):
    if min(abs(hp/e - 1) for e in (1, 5, 10, 25, 60)) < 1e-13 and hp*HP/HP != hp: raise SkipCase('power range')
    l = .5 if load is None else load; i = [hp <= 1, hp <= 5, hp <= 10, hp <= 25, hp <= 60, True].index(True)
    got = motor_efficiency_underloaded(hp*PM.hp) if load is None else motor_efficiency_underloaded(hp*PM.hp, load)
    want = 1 if l > T['ones'][i] else sum(c*l**k for k, c in enumerate(T['lists'][i]))
    close(got, want, rtol=1e-11, what='efficiency at part load'); ensure(0 < got <= 1 + 1e-9, 'fraction')
    ensure(motor_efficiency_underloaded(hp*PM.hp, min(l*1.05, 1.1)) >= got - 1e-9, 'efficiency falls with load')

@P.sub(rec(Q=lf(1e-5, 10), H=lf(.01, 1e4), n=pick([None]) | lf(1, 1e5), D=lf(.001, 10), f=uf(1, 400) | pick([50, 60]), poles=pick([None, 2, 4, 6, 8, 10, 12, 48]), V=lf(1, 1e5), Pw=lf(1, 1e8), phase=pick([None, 1, 3]), PF=pick([None, 1.]) | uf(.05, 1), bad=pick([0, 2, 4, -3, 13]), k=lf(.1, 10)), n=1200, thorough=20000)
def definitions(ctx, Q, H, n, D, f, poles, V, Pw, phase, PF, bad, k):
    kw = {} if n is None else {'n': n}; N = 3600. if n is None else n
    ns = specific_speed(Q, H, **kw); close(ns, N*Q**.5*H**-.75, rtol=1e-12, what='specific speed'); ds = specific_diameter(Q, H, D); close(ds, D*H**.25*Q**-.5, rtol=1e-12, what='specific diameter')
    # affinity laws
    close(specific_speed(Q*k, H*k*k, n=N*k), ns, rtol=1e-11, what='affinity, speed'); close(specific_speed(Q*k**3, H*k*k, n=N), ns, rtol=1e-11, what='affinity, size'); close(specific_diameter(Q*k**3, H*k*k, D*k), ds, rtol=1e-11, what='affinity, size')
    kw = {} if poles is None else {'poles': poles}; close(speed_synchronous(f, **kw), 120*f/(poles or 2), rtol=1e-13, what='synchronous speed')
    kw = {a: b for a, b in (('phase', phase), ('PF', PF)) if b is not None}
    i = current_ideal(Pw, V, **kw); close(i*V*(1 if PF is None else PF)*(3**.5 if (phase or 3) == 3 else 1), Pw, rtol=1e-12, what='power drawn')
    raises(ValueError, current_ideal, Pw, V, phase=bad, what='phase')
    gpm = Q*15850.323; close(Corripio_pump_efficiency(Q), -.316 + .24015*log(gpm) - .01199*log(gpm)**2, rtol=1e-10, atol=1e-12, what='Corripio pump'); h = Pw/745.69987; close(Corripio_motor_efficiency(Pw), .8 + .0319*log(h) - .00182*log(h)**2, rtol=1e-10, atol=1e-12, what='Corripio motor')
    if 50 <= gpm <= 5000: ensure(0 < Corripio_pump_efficiency(Q) < 1, 'pump efficiency in range')
@P.sub(rec(which=pick(['residential_power', 'industrial_power']), i=ints(0, 250)), n=450, thorough=900)
def supplies(ctx, which, i):
    rows = T[which]; got = getattr(PM, which); ensure(list(got) == [r[0] for r in rows], 'countries')
    c, name, volt, freq, plugs = rows[i % len(rows)]; g = got[c]; tup = lambda v: tuple(v) if isinstance(v, list) else v
    ensure((g.country, g.voltage, g.freq, g.plugs) == (name, tup(volt), freq, tup(plugs)), '%s: %r' % (c, g)); ensure(isinstance(g, CountryPower), 'type')
    h = eval(repr(g), {'CountryPower': CountryPower}); ensure((h.country, h.voltage, h.freq, h.plugs) == (g.country, g.voltage, g.freq, g.plugs), 'representation')
    ensure(g.freq in residential_power_frequencies, 'frequency')
    if which[0] == 'r': ensure(g.voltage in voltages_1_phase_residential and all(q in electrical_plug_types for q in g.plugs), 'residential supply')
    for k in ('electrical_plug_types', 'voltages_1_phase_residential', 'voltages_3_phase', 'residential_power_frequencies', 'nema_high_P', 'nema_min_P', 'belt_efficiencies', 'bearing_friction_factors') + tuple(k for k in T if k.startswith(('fan_', 'FMEG_'))): ensure(getattr(PM, k) == T[k], k)
