"""C26: pipe schedules and wire gauges against a recorded copy of the tables."""
from math import *
from fluids.piping import nearest_pipe, gauge_from_t, t_from_gauge, erosional_velocity
import fluids
from vf.core import *
from vf.tables import load
P = Prop('C26', rule='Every schedule and every entry; requests exactly at entries (as published, in metres), a rounding error beside them, between entries, below the smallest and above the largest. Non-trivial: the answer is not the first entry of the table.',
         assumptions=['props/data/piping.json is a copy of the tables made from the reviewed tree'])
T = load('piping'); SCH = sorted(T['schedules']); WIRE = sorted(T['wires'])
@P.sub(rec(s=pick(SCH), i=ints(0, 40), key=pick('Di', 'Do', 'NPS'), how=pick('exact', 'exact', 'between', 'between', 'above', 'below'), u=uf(.01, .99), num=pick(False, True)), n=1500)
def pipes(ctx, s, i, key, how, u, num):
    n, di, do, t = T['schedules'][s]; i %= len(n); sched = int(s) if num and s.isdigit() else s
    row = lambda j: (n[j], di[j]*1e-3, do[j]*1e-3, t[j]*1e-3); ask = lambda **k: nearest_pipe(schedule=sched, **k)
    if key == 'NPS':
        closes(ask(NPS=n[i]), row(i), 1e-12, what='NPS %r of %s' % (n[i], s)); raises(ValueError, nearest_pipe, NPS=n[i] + .01*u, schedule=s, what='a nominal size not in the table')
        if n[i] == int(n[i]): closes(ask(NPS=int(n[i])), row(i), 1e-12, what='integer NPS')
        ctx.nontrivial(i > 0); return
    col = di if key == 'Di' else do
    if how == 'exact': j, x = i, float(repr(round(col[i]*1e-3, 12)))
    elif how == 'between':
        lo = col[i - 1] if i else 0.; j, x = i, (lo + u*(col[i] - lo))*1e-3
        if col[i] - lo < 1e-6: j = col.index(col[i])
    elif how == 'below': j, x = 0, col[0]*u*1e-3
    else:
        raises(ValueError, nearest_pipe, schedule=s, what='larger than the largest', **{key: col[-1]*(1 + u)*1e-3}); raises(ValueError, nearest_pipe, schedule=s, what='just larger than the largest', **{key: (col[-1] + .01*u)*1e-3}); ctx.nontrivial(True); return
    closes(ask(**{key: x}), row(col.index(col[j])), 1e-9, what='%s=%r of %s' % (key, x, s))
    r = ask(**{key: x}); ensure(r[1 if key == 'Di' else 2] >= x*(1 - 1e-9), 'smaller than asked for'); ctx.nontrivial(j > 0); ctx.label(how)
@P.sub(rec(s=pick(SCH), i=ints(0, 40)), n=300)
def pipe_consistency(ctx, s, i):
    """the answer, asked for again by any of its own dimensions, is itself; wall = (Do - Di)/2; larger nominal sizes are larger"""
    n = T['schedules'][s][0]; i %= len(n); r = nearest_pipe(NPS=n[i], schedule=s)
    close(r[2] - r[1], 2*r[3], 1e-6, 2e-7, 'wall thickness'); ensure(0 < r[3] and 0 < r[1] < r[2], 'dimensions %r', r)
    close(nearest_pipe(Do=r[2], schedule=s)[2], r[2], 1e-12, what='by outer diameter'); close(nearest_pipe(Di=r[1], schedule=s)[1], r[1], 1e-12, what='by inner diameter')
    if i: q = nearest_pipe(NPS=n[i - 1], schedule=s); ensure(q[1] <= r[1] and q[2] <= r[2] and q[0] < r[0], 'order of sizes %r %r', q, r)
    ctx.nontrivial(i > 0)
@P.sub(rec(s=pick('41', 'std', 'DR', '', '5X')), n=20)
def unknown(ctx, s):
    raises(ValueError, nearest_pipe, NPS=2, schedule=s, what='unknown schedule'); raises(ValueError, gauge_from_t, .001, schedule=s, what='unknown gauge'); raises(ValueError, t_from_gauge, 10, schedule=s, what='unknown gauge'); ctx.nontrivial(True)
@P.sub(rec(w=pick(WIRE), i=ints(0, 90), how=pick('exact', 'inside', 'inside', 'edge', 'above', 'below'), u=uf(.001, .999), SI=pick(True, False), default=pick(True, False), known=False), n=800)
def gauges(ctx, w, i, how, u, SI, default, known):
    g, inch, si = T['wires'][w]; i %= len(g); k = {} if default and w == 'BWG' else {'schedule': w}; kk = dict(k) if SI and default else dict(k, SI=SI)
    conv = .0254 if SI else 1.
    if how == 'exact':
        ensure(gauge_from_t(si[i] if SI else inch[i], **kk) == g[i], 'gauge of thickness %r of %s: %r, table %r', inch[i], w, gauge_from_t(si[i] if SI else inch[i], **kk), g[i])
        close(t_from_gauge(g[i], **kk), si[i] if SI else inch[i], 1e-12, what='thickness of gauge'); close(si[i], inch[i]*.0254, 1e-3, 5e-7, what='metres and inches')
        raises(ValueError, t_from_gauge, 99.5 + i, what='a gauge not in the table', **kk)
    elif how == 'above': raises(ValueError, gauge_from_t, inch[0]*(1 + u)*conv, what='thicker than the table', **kk)
    elif how == 'below':
        got = gauge_from_t(inch[-1]*(.05 + .9*u)*conv, **kk); ensure(got == (g[-1] if known else got), 'gauge %r of a wire below the thinnest (gauge %r)', got, g[-1]); ensure(got in (g[-1], inch[-1]), 'gauge %r', got)
    else:
        if i == 0: i = 1
        a, b = inch[i - 1], inch[i]      # a > b
        x = b + (a - b)*(u if how == 'inside' else .1 + (.002 if u > .5 else -.002)); f = (x - b)/(a - b)
        if abs(f - .1) < 1e-4 or f < 1e-3 or f > .999: raise SkipCase
        want = g[i] if f <= .1 else g[i - 1]
        got = gauge_from_t(x*conv, **kk); ensure(got == want, 'gauge of %r inch in %s: %r; between gauges %r (%r) and %r (%r), expected %r', x, w, got, g[i - 1], a, g[i], b, want)
    ctx.nontrivial(i > 0); ctx.label(w + '-' + how)
@P.sub(rec(rho=lf(.1, 5e3), C=lf(50, 400)), n=100)
def erosion(ctx, rho, C):
    """API 14E: C/sqrt(rho) in ft/s and lb/ft^3"""
    close(erosional_velocity(rho, C), C/sqrt(rho*.3048**3/.45359237)*.3048, 1e-11, what='erosional velocity'); ctx.nontrivial(True)
