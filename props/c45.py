"""C45: open-channel and weir equations."""
from math import sqrt, pi, tan
import numpy as np
import fluids
from fluids import open_flow
from vf.core import *
from vf.refs import reffer

P = Prop('C45', rule='Heads, widths and depths log-uniform over the full positive range; angles uniform with the tabulated nodes (and their neighbours) '
         'drawn explicitly. Non-trivial: every distinct input.')
r = reffer(P, _n=200, _rtol=1e-11)
G = 9.80665
H, W = lf(1e-3, 20), lf(.01, 100)
ANG = [20, 40, 60, 80, 100]; CS = [0.59, 0.58, 0.575, 0.575, 0.58]; KS = [0.0028, 0.0017, 0.0012, 0.001, 0.001]
def shen(h1, angle=90):
    return float(np.interp(angle, ANG, CS))*tan(angle*pi/360)*sqrt(G)*(h1 + float(np.interp(angle, ANG, KS)))**2.5
r('Q_weir_V_Shen', shen, h1=H, angle=opt(inear(uf(5., 140., [20., 40., 60., 80., 100.]), [20, 30, 40, 45, 50, 60, 70, 80, 90, 100, 110]), 8), _n=600)
r('Q_weir_rectangular_Kindsvater_Carter', lambda h1, h2, b: .554*(1 - .0035*h1/h2)*(b + .0025)*sqrt(G)*(h1 + .0001)**1.5, h1=H, h2=H, b=W)
r('Q_weir_rectangular_SIA', lambda h1, h2, b, b1: .544*(1 + .064*(b/b1)**2 + (.00626 - .00519*(b/b1)**2)/(h1 + .0016))*(1 + .5*(b/b1)**4*(h1/(h1 + h2))**2)*b*sqrt(G)*(h1 + h2)**1.5, h1=H, h2=H, b=W, b1=W)
r('Q_weir_rectangular_full_Ackers', lambda h1, h2, b: .564*(1 + .15*h1/h2)*b*sqrt(G)*(h1 + .001)**1.5, h1=H, h2=H, b=W)
r('Q_weir_rectangular_full_SIA', lambda h1, h2, b: 2/3*sqrt(2)*(.615 + .000615/(h1 + .0016))*b*sqrt(G)*h1 + .5*(h1/(h1 + h2))**2*b*sqrt(G)*h1**1.5, h1=H, h2=H, b=W)
r('Q_weir_rectangular_full_Rehbock', lambda h1, h2, b: 2/3*sqrt(2)*(.602 + .0832*h1/h2)*b*sqrt(G)*(h1 + .00125)**1.5, h1=H, h2=H, b=W)
# published Kindsvater-Carter full-width form (the docstring repeats the Rehbock equation by mistake; see DESIGN.md)
r('Q_weir_rectangular_full_Kindsvater_Carter', lambda h1, h2, b: 2/3*sqrt(2)*(.602 + .075*h1/h2)*(b - .001)*sqrt(G)*(h1 + .001)**1.5, h1=H, h2=H, b=W)
r('V_Manning', lambda Rh, S, n: Rh**(2/3)*sqrt(S)/n, Rh=H, S=lf(1e-7, 1), n=lf(1e-3, 1))
r('V_Chezy', lambda Rh, S, C: C*sqrt(S*Rh), Rh=H, S=lf(1e-7, 1), C=lf(1, 300))

@P.sub(rec(Rh=lf(1e-4, 100), S=lf(1e-7, 1), n=lf(1e-3, 1)), n=400)
def conversion_keeps_velocity(ctx, Rh, S, n):
    C = open_flow.n_Manning_to_C_Chezy(n, Rh)
    close(open_flow.V_Chezy(Rh, S, C), open_flow.V_Manning(Rh, S, n), 1e-12, 0, 'velocity after n -> C')
    close(open_flow.V_Manning(Rh, S, open_flow.C_Chezy_to_n_Manning(C, Rh)), open_flow.V_Chezy(Rh, S, C), 1e-12, 0, 'velocity after C -> n')
    close(open_flow.C_Chezy_to_n_Manning(C, Rh), n, 1e-12, 0, 'round trip')

@P.sub(rec(h1=H, f=uf(1.0001, 3), h2=H, b=W, angle=uf(20, 100)), n=300)
def more_head_more_flow(ctx, h1, f, h2, b, angle):
    for nm in ('Ackers', 'Rehbock', 'Kindsvater_Carter', 'SIA'):
        q = getattr(open_flow, 'Q_weir_rectangular_full_' + nm)
        ensure(q(h1*f, h2, b) > q(h1, h2, b), '%s: flow does not rise with head', nm)
        close(q(h1, h2, 2*b)/q(h1, h2, b), (2*b - .001)/(b - .001) if nm == 'Kindsvater_Carter' else 2., 1e-10, 0, nm + ' width proportionality')
    ensure(open_flow.Q_weir_V_Shen(h1*f, angle) > open_flow.Q_weir_V_Shen(h1, angle), 'V-notch flow does not rise with head')

@P.sub(rec(i=ints(0, 3), j=ints(0, 400)), n=300)
def manning_tables(ctx, i, j):
    d = [open_flow.n_natural, open_flow.n_excavated_dredged, open_flow.n_lined_built, open_flow.n_closed_conduit][i]
    rows = [(a, b, v) for a in d for b, v in d[a].items()]
    a, b, v = rows[j % len(rows)]
    ensure(len(v) == 3 and 0 < v[0] <= v[1] <= v[2] <= .5, '%s/%s: Manning n not ordered: %r', a, b, v)
