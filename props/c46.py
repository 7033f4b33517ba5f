"""C46: jet pumps and vacuum air leakage."""
from math import *
import random
from fluids import *
from fluids.numerics import UnconvergedError
from vf.core import *

P = Prop('C46', rule='Jet-pump states built from geometry, fluid, losses and flows; any one (ancillary) or any two (pump) unknowns left out; every returned state is put back into the documented equations. Leakage correlations against their equations on and across every pressure band. Non-trivial: solved, secondary flow present.',
         assumptions=['the pump solver gives no guarantee of convergence: a ValueError "Could not solve" is accepted when P5 is given', 'retracted nozzles use (1 - Ks) in the pressure ratio and Seider\'s constant 0.0289, as shipped (known findings)'])

def energy(rhop, rhos, Kp, Ks, d_nozzle, d_mixing, Qp, Qs, **k):
    """P1 - P2, and the size of its terms"""
    vn = Qp/(pi/4*d_nozzle**2); v3 = Qs/(pi/4*(d_mixing**2 - d_nozzle**2)); a, b = rhop*vn*vn/2*(1 + Kp), rhos*v3*v3/2*(1 + Ks)
    return a - b, a + b
def ratio(rhop, rhos, Kp, Ks, Km, Kd, d_nozzle, d_mixing, d_diffuser, Qp, Qs, retracted, known=False, **k):
    C, M, R, al = rhos/rhop, Qs/Qp, (d_nozzle/d_mixing)**2, (d_mixing/d_diffuser)**2
    mixed = R*R*(1 + C*M)*(1 + M)*(1 + Km + Kd + al*al); mom = 2*R + 2*C*M*M*R*R/(1 - R); suc = C*(M*R/(1 - R))**2
    num = mom - mixed - suc*(1 + Ks); den = 1 + Kp - mom + mixed + (suc*((1 + Ks) if known else (1 - Ks)) if retracted else 0)
    return num/den, (mom + mixed + suc*(1 + Ks))/abs(den)*(1 + abs(num/den)), C, M, R, al
STATE = dict(rhop=uf(500, 1500), rhos=uf(1, 1800) | uf(500, 1500), Kp=uf(0, .5) | pick([0., .04]), Ks=uf(0, 2) | pick([0., .1]), dn=lf(.001, .5), dr=uf(1.05, 8), Qp=lf(1e-5, 2), m=lf(.01, 5), P2=lf(1e3, 1e6))
@P.sub(rec(**STATE, unknown=pick(['P1', 'P2', 'Qs', 'Qp', 'd_nozzle', 'd_mixing'])), n=1200, thorough=30000)
def ancillary(ctx, rhop, rhos, Kp, Ks, dn, dr, Qp, m, P2, unknown):
    s = dict(d_nozzle=dn, d_mixing=dn*dr, Qp=Qp, Qs=Qp*m, P2=P2); e, size = energy(rhop, rhos, Kp, Ks, **s)
    s['P1'] = P2 + e
    if not 1e-6 < size < 1e14: raise SkipCase('velocities')
    want = s.pop(unknown)
    if unknown in ('d_nozzle', 'd_mixing') and e <= 0: raise SkipCase('primary below secondary pressure')
    got = liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, **s)
    if unknown == 'd_mixing': ctx.label('two diameters' if rhos*(Qp*m/(pi/4*dn**2))**2/2*(1 + Ks) < (size - e)/2 else 'one diameter')
    full = dict(s); full[unknown] = got
    ensure(isinstance(got, float), 'number')
    if unknown in ('Qs', 'Qp', 'd_nozzle', 'd_mixing'):
        small = {'Qs': (size - e)/2, 'Qp': (size + e)/2}.get(unknown)
        if isnan(got) or got <= 0:
            if unknown == 'Qs' and small < 1e-8*(size + P2): ctx.trivial(); return
        ensure(got > 0 , 'physical solution: %r' % got)
    e2, size2 = energy(rhop, rhos, Kp, Ks, **full)
    close(full['P1'] - full['P2'], e2, rtol=1e-9, atol=(size2 + full['P1'] + abs(full['P2']))*(1e-7 if unknown.startswith('d_') else 1e-11), what='energy balance solving for %s = %r' % (unknown, got))
    if unknown in ('P1', 'P2', 'Qs', 'Qp', 'd_nozzle', 'd_mixing'):
        # sensitivity of the answer to the rounding of the balance
        cond = {'P1': 0, 'P2': 0, 'Qs': (size + P2)/max(size - e, 1e-300), 'Qp': (size + P2)/(size + e), 'd_nozzle': (size + P2)/(size + e)*4, 'd_mixing': (size + P2)/max(size - e, 1e-300)*dr}[unknown]
        if cond < 1e6: close(got, want, rtol=1e-11*(1 + cond) if unknown[0] != 'd' else 1e-7 + 1e-9*cond, atol=1e-11*(size + abs(P2)) if unknown[0] == 'P' else 0, what=unknown)
@P.sub(rec(k=ints(0, 6)), n=30, thorough=60)
def arguments(ctx, k):
    s = dict(d_nozzle=.0223828588, d_mixing=.045, Qp=.01, Qs=.01, P1=426256., P2=133600., P5=2e5); f = dict(rhop=998., rhos=1098., Kp=.04, Ks=.11)
    a = {x: y for x, y in s.items() if x != 'P5'}
    raises(ValueError, liquid_jet_pump_ancillary, **f, **a, what='nothing unknown'); names = list(a); b = dict(a); del b[names[k % 6]], b[names[(k + 1) % 6]]
    raises(ValueError, liquid_jet_pump_ancillary, **f, **b, what='two unknowns')
    raises(ValueError, liquid_jet_pump, **f, **s, what='nothing unknown'); b = dict(s); n = list(s); del b[n[k]]
    raises(ValueError, liquid_jet_pump, **f, **b, what='one unknown'); del b[n[(k + 1) % 7]], b[n[(k + 3) % 7]]; raises(ValueError, liquid_jet_pump, **f, **b, what='three unknowns')

VARS = ['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2', 'P5']
def run(ctx, s, f, dd, retracted, out, known=False):
    kw = dict(f); want = dict(s)
    for v in out: del want[v]
    if dd is not None: kw['d_diffuser'] = dd
    before = random.getstate(); random.seed(1)
    try: ans = liquid_jet_pump(nozzle_retracted=retracted, max_variations=16, **kw, **want)
    except ValueError as e:
        if 'P5' in out or 'Could not solve' not in str(e): raise
        ctx.label('could not solve'); raise SkipCase('could not solve')
    finally: random.setstate(before)
    ensure(set(ans) == set(VARS) | {'d_diffuser', 'N', 'M', 'R', 'alpha', 'efficiency'}, 'keys %s' % sorted(ans))
    for v in want: close(ans[v], want[v], rtol=1e-14, what='specified ' + v)
    if dd is not None: ensure(ans['d_diffuser'] == dd, 'specified diffuser')
    else: ensure(ans['d_diffuser'] >= 900*min(ans['d_mixing'], s['d_mixing'], ans['d_nozzle']), 'diffuser large')
    for v in VARS: ensure(isinstance(ans[v], (int, float)) and isfinite(ans[v]), '%s = %r' % (v, ans[v]))
    g = {v: ans[v] for v in VARS}; 
    N, sz, C, M, R, al = ratio(d_diffuser=ans['d_diffuser'], retracted=retracted, known=known, **f, **g)
    close(ans['M'], M, rtol=1e-11, what='flow ratio'); close(ans['R'], R, rtol=1e-11, what='area ratio'); close(ans['alpha'], al, rtol=1e-11, what='diffuser area ratio')
    if ans['P1'] != ans['P5']: close(ans['N'], (ans['P5'] - ans['P2'])/(ans['P1'] - ans['P5']), rtol=1e-9, what='pressure ratio')
    close(ans['efficiency'], ans['M']*ans['N'], rtol=1e-9, what='efficiency')
    e, size = energy(**f, **g)
    round_n = 1e-10*(abs(ans['P5']) + abs(ans['P2']) + abs(ans['P1']))/max(abs(ans['P1'] - ans['P5']), 1e-300)*(1 + abs(N))
    exp = 'P5' in out
    close(ans['N'], N, rtol=1e-9, atol=round_n + 1e-11*sz + (0 if exp else 1.01e-5), what='documented pressure ratio, solving for %s and %s' % tuple(out))
    close(ans['P1'] - ans['P2'], e, rtol=1e-9, atol=1e-11*(size + abs(ans['P1']) + abs(ans['P2']))*(1e4 if exp and out[0][0] == 'd' else 1) + (0 if exp else 1.01e-5), what='documented energy balance, solving for %s and %s' % tuple(out))
    if not exp: ensure(ans['efficiency'] > -1.01e-5, 'efficiency %r' % ans['efficiency'])
    ctx.label('same' if all(abs(ans[v] - s[v]) < 1e-4*abs(s[v]) for v in VARS) else 'other solution')
def build(rhop, rhos, Kp, Ks, Km, Kd, dn, dr, vn, m, P2, dd, retracted):
    if vn*vn*rhop/2 < 100: raise SkipCase('slow')
    Qp = vn*pi/4*dn*dn; f = dict(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, Km=Km, Kd=Kd); s = dict(d_nozzle=dn, d_mixing=dn*dr, Qp=Qp, Qs=Qp*m)
    D = dn*dr*dd if dd else None
    e, size = energy(**f, **s); N = ratio(d_diffuser=D or s['d_mixing']*1e3, retracted=retracted, **f, **s)[0]
    s['P2'] = P2; s['P1'] = P2 + e; s['P5'] = (N*s['P1'] + P2)/(1 + N)
    if not e > 0 or not abs(1 + N) > .01 or s['P5'] <= 0: raise SkipCase('not a pump')
    return s, f, D, N
@P.sub(rec(rhop=uf(500, 1500), rhos=uf(500, 1500) | uf(1, 1800), Kp=uf(0, .5) | pick([0., .04]), Ks=uf(0, 2) | pick([0., .1]), Km=uf(0, .5), Kd=uf(0, .5), dn=lf(.001, .2), dr=uf(1.2, 6), vn=uf(5, 50), m=lf(.05, 4), P2=lf(1e3, 1e6), dd=pick([None]) | uf(1, 5), retracted=pick([True, False]), unknown=pick(VARS[:-1]), known=False), n=500, thorough=15000)
def exit_pressure(ctx, rhop, rhos, Kp, Ks, Km, Kd, dn, dr, vn, m, P2, dd, retracted, unknown, known):
    s, f, D, N = build(rhop, rhos, Kp, Ks, Km, Kd, dn, dr, vn, m, P2, dd, retracted)
    if known: run(ctx, s, f, D, retracted, [unknown, 'P5'], True); return
    run(ctx, s, f, D, retracted, [unknown, 'P5'])
@P.sub(rec(rhop=uf(500, 1500), rhos=uf(500, 1500), Kp=uf(0, .3), Ks=uf(0, .5), Km=uf(0, .3), Kd=uf(0, .3), dn=lf(.003, .1), dr=uf(1.4, 4), vn=uf(10, 40), m=uf(.1, 2), P2=lf(3e4, 5e5), dd=pick([None]) | uf(1.2, 3), retracted=pick([True, False]), i=ints(0, 5), j=ints(0, 4)), n=60, thorough=1500, hang=60)
def pump(ctx, rhop, rhos, Kp, Ks, Km, Kd, dn, dr, vn, m, P2, dd, retracted, i, j):
    s, f, D, N = build(rhop, rhos, Kp, Ks, Km, Kd, dn, dr, vn, m, P2, dd, retracted)
    if N <= 0: raise SkipCase('not a pump')
    n = VARS[:-1]; a = n.pop(i); run(ctx, s, f, D, retracted, sorted([a, n[j]], key=VARS.index))

LBH = 0.45359237/3600; FT3 = .3048**3; TORR = 101325/760.; MMHG = 133.322387415; INHG = 3386.388640341
@P.sub(rec(V=lf(.01, 1e4), dP=uf(1, 101324) | lf(1, 1e5) | pick([10*TORR, 100*TORR, MMHG, 3*MMHG, 20*MMHG, 90*MMHG, 3*INHG, 5*INHG, 8*INHG]).flatmap(lambda e: pick([e*(1 - 1e-6), e*(1 + 1e-6), e*.999, e*1.001])), P_atm=pick([None, 101325., 1e5]) | uf(6e4, 1.1e5), cons=pick([None, True, False]), known=False), n=1500, thorough=40000)
def leakage(ctx, V, dP, P_atm, cons, known):
    pa = 101325. if P_atm is None else P_atm; Pv = pa - dP
    if Pv < 0: raise SkipCase('absolute pressure')
    dP = pa - Pv; kw = {} if P_atm is None else {'P_atm': P_atm}; v = V/FT3; t = dP/TORR; mm = dP/MMHG; inch = dP/INHG
    if min(abs(t/e - 1) for e in (10, 100)) > 1e-11:
        w = .026*t**.34*v**.6 if t < 10 else .032*t**.26*v**.6 if t < 100 else .106*v**.6
        close(vacuum_air_leakage_Ryans_Croll(V, Pv, **kw), w*LBH, rtol=1e-9, atol=0, what='Ryans and Croll')
    c = .0298 if known else .0289
    close(vacuum_air_leakage_Seider(V, Pv, **kw), (5 + (c + .03088*log(t) - .0005733*log(t)**2)*v**.66)*LBH, rtol=1e-9, atol=1e-12*LBH*v**.66, what='Seider')
    if min(abs(mm/e - 1) for e in (1, 3, 20, 90)) > 1e-7:
        c0, c1 = next(x[1:] for x in [(1, .6667235169997174, -3.71246576520232), (3, .664489357445796, -3.0147277548691274), (20, .6656780453394583, -2.34007321331419), (90, .663080000739313, -1.9278288516732665), (inf, .6658471905826482, -1.6641585778506027)] if mm <= x[0])
        got = vacuum_air_leakage_HEI2633(V, Pv, **kw); close(got, exp(c1 + c0*log(max(v, 10.)))*LBH, rtol=1e-9, what='HEI 2633')
        ensure(vacuum_air_leakage_HEI2633(V*1.3, Pv, **kw) >= got*(1 - 1e-12), 'larger vessels leak more')
    if min(abs(inch/e - 1) for e in (3, 5, 8)) > 1e-7:
        tab = [(3, 20, 10), (5, 25, 20), (8, 30, 25), (inf, 40, 30)]; w = next(x for x in tab if inch <= x[0])[2 if cons is False else 1]
        k2 = dict(kw)
        if cons is not None: k2['conservative'] = cons
        close(vacuum_air_leakage_Coker_Worthington(Pv, **k2), w*LBH, rtol=1e-12, what='Coker and Worthington')
