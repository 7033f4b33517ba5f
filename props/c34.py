"""C34: the NRLMSISE-00 atmosphere.  Reference model: a frozen copy of the C-port (props/ref/nrlmsise00), which
reproduces the test output distributed with the model."""
import sys, threading
from math import isclose
import fluids
from fluids.atmosphere import ATMOSPHERE_NRLMSISE00 as A
from fluids import nrlmsise00 as live
from props.ref import nrlmsise00 as frozen
from vf.core import *

P = Prop('C34', rule='Altitude 0-1000 km with every layer altitude and its neighbourhood, all latitudes/longitudes/days/times, F10.7 60-300, Ap 0-400 given or not, switches 0/1/2. Non-trivial: distinct states; histories of 2-6 evaluations; 4 threads.',
         assumptions=['a frozen copy of the model (same coefficients as the published C release, validated by its published sample output) is the reference'])
NA, RGAS = 6.02214076e23, 8.31446261815324
ALT = inear(uf(0., 1000.) | uf(0., 130.), [0., 10., 15., 20., 32.5, 45., 55., 62.5, 72.5, 90., 100., 110., 116., 120., 123., 160., 200., 240., 250., 300., 320., 450., 500., 1000.], 2)
AP = opt(flist(uf(0, 400, (4., 0.)), 7, 7))
ST = rec(alt=ALT, lat=uf(-90, 90, (0., 90., -90.)), lon=uf(-180, 360, (0., 180.)), day=ints(0, 366), sec=uf(0, 86400, (0., 43200.)), f107=uf(60, 300, (150.,)), f107a=uf(60, 300, (150.,)), ap=AP)
def raw(mod, s, switches=None):
    o, i, f = mod.nrlmsise_output(), mod.nrlmsise_input(), mod.nrlmsise_flags()
    f.switches = [0] + [1]*23 if switches is None else list(switches)
    if s['ap']:
        a = mod.ap_array(); a.a = list(s['ap']); f.switches[9] = -1; i.ap = s['ap'][0]; i.ap_a = a
    i.doy, i.year, i.sec, i.alt, i.g_lat, i.g_long = s['day'], 0, s['sec'], s['alt'], s['lat'], s['lon']
    i.lst = s['sec']/3600. + s['lon']/15.; i.f107A, i.f107 = s['f107a'], s['f107']
    mod.gtd7(i, f, o)
    return list(o.d) + list(o.t)
def build(s): return A(Z=s['alt']*1e3, latitude=s['lat'], longitude=s['lon'], day=s['day'], seconds=s['sec'], f107=s['f107'], f107_avg=s['f107a'], geomagnetic_disturbance_indices=s['ap'])
NAMES = ['He_density', 'O_density', 'N2_density', 'O2_density', 'Ar_density', 'rho', 'H_density', 'N_density', 'O_anomalous_density', 'T_exospheric', 'T']
def fields(a): return [getattr(a, n) for n in NAMES]
def expect(s):
    w = raw(frozen, dict(s, alt=s['alt']*1e3*1e-3))
    return [v*1e6 for v in w[:5]] + [w[5]*1e3] + [v*1e6 for v in w[6:9]] + w[9:]
def same(got, want, what):
    for n, g, w in zip(NAMES, got, want): close(g, w, 1e-9, 1e-300, '%s: %s' % (what, n))
@P.sub(ST, n=500, thorough=8000)
def reference(ctx, **s):
    a = build(s); same(fields(a), expect(s), 'against the reference model')
    ctx.label('<32.5 km' if s['alt'] < 32.5 else '<72.5 km' if s['alt'] < 72.5 else '<300 km' if s['alt'] < 300 else '>300 km'); ctx.label('Ap given' if s['ap'] else 'default Ap')
@P.sub(ST, n=200, thorough=3000)
def consistency(ctx, **s):
    a = build(s)
    n = [a.N2_density, a.O2_density, a.Ar_density, a.He_density, a.O_density, a.H_density, a.N_density]
    ensure(list(a.components) == ['N2', 'O2', 'Ar', 'He', 'O', 'H', 'N'], 'components %r' % (a.components,))
    for v in n: ensure(v >= 0, 'negative density %r' % v)
    N = sum(n)
    close(a.particle_density, N, 1e-12, 0, 'particle density'); closes(a.zs, [v/N for v in n], 1e-12, 1e-300, 'mole fractions'); close(sum(a.zs), 1, 1e-12, 0, 'sum of mole fractions')
    close(a.P, N*a.T*RGAS/NA, 1e-8, 0, 'pressure')
    MW = [28.0134, 31.9988, 39.948, 4.002602, 15.9994, 1.00794, 14.0067]
    close(a.rho_calculated, sum(x*m for x, m in zip(n, MW))/(1000*NA), 1e-8, 0, 'calculated density')
    close(a.rho, 1.66e-27*(28*n[0] + 32*n[1] + 40*n[2] + 4*n[3] + 16*n[4] + n[5] + 14*n[6]), 1e-9, 0, 'mass density')
    close(a.rho, a.rho_calculated, 1e-2, 0, 'mass density against mole masses')
    ensure(a.T > 50 and a.T < 5000, 'temperature %r' % a.T)
    for k, v in dict(Z=s['alt']*1e3, latitude=s['lat'], longitude=s['lon'], day=s['day'], seconds=s['sec'], f107=s['f107'], f107_avg=s['f107a']).items(): ensure(getattr(a, k) == v, 'stored %s' % k)
@P.sub(rec(sw=flist(pick(0, 1, 1, 1, 2), 24, 24), **{k: v for k, v in dict(alt=ALT, lat=uf(-90, 90), lon=uf(-180, 360), day=ints(0, 366), sec=uf(0, 86400), f107=uf(60, 300), f107a=uf(60, 300), ap=AP).items()}), n=250, thorough=4000)
def switches(ctx, sw, **s):
    sw = list(sw); sw[9] = int(sw[9] == 1)
    def go(m):
        try: return raw(m, s, sw)
        except (ZeroDivisionError, ValueError, OverflowError) as e: return type(e).__name__
    w = go(frozen); g = go(live)
    if isinstance(w, str): ensure(g == w, '%r where the reference raises %s' % (g, w)); ctx.trivial(); return
    ensure(not isinstance(g, str), 'raised %s' % g)
    for x, y in zip(g, w): close(x, y, 1e-9, 1e-300, 'switch set %r' % (sw,))
@P.sub(rec(hist=flist(ST, 2, 6)), n=80, thorough=1500)
def history(ctx, hist):
    """Earlier evaluations leave no trace, arguments are not changed."""
    import copy
    kept = copy.deepcopy(hist); objs = []
    for s in hist: objs.append(build(s))
    for s, o in zip(kept, objs): same(fields(o), expect(s), 'evaluated after others')
    same(fields(build(hist[0])), fields(objs[0]), 'evaluated twice')
    ensure(hist == kept, 'arguments changed')
@P.sub(rec(a=ST, b=ST, c=ST, d=ST), n=12, thorough=150)
def threads(ctx, **st):
    """Four threads evaluating different states at once obtain what each obtains alone."""
    want = {k: expect(s) for k, s in st.items()}; got = {}; err = []
    def run(k):
        try: got[k] = [fields(build(st[k])) for _ in range(3)]
        except BaseException as e: err.append('%s: %s' % (type(e).__name__, e))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(k,)) for k in st]
        for t in ts: t.start()
        for t in ts: t.join()
    finally: sys.setswitchinterval(old)
    ensure(not err, 'a thread raised %s' % err[:1])
    for k in st:
        for r_ in got[k]: same(r_, want[k], 'in concurrent threads')
