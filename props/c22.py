"""C22: TANK objects: every sufficient specification gives one consistent vessel; heights and volumes invert each other."""
from math import pi, sqrt, isfinite
import bisect, re
import numpy as np
from fluids.geometry import TANK, V_tank, SA_tank, V_from_h, SA_from_h
from vf.core import *
from vf import solids as S

P = Prop('C22', rule='Diameter 0.3 to 6 m, length 0.2 to 12 diameters, both orientations, every head type on either side (also none and "same"), head size given by depth, by ratio, by dish parameters or left to the default, fill fractions over the whole height with the head/cylinder joints drawn explicitly, heads alike in all or all but one of their dimensions; histories of up to 8 operations. Non-trivial: at least one head that is not flat.',
         assumptions=['reference volumes and areas are the tanh-sinh integrals of vf/solids.py', 'the whole-head area of guppy heads is excluded (finding of C21)'])
HEADS = ['conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy']
head = rec(kind=pick(HEADS + [None]), how=pick('a', 'a', 'ratio', 'both', 'default'), r=inear(uf(.02, .5), [.25, .5, .1]), f=inear(uf(.6, 1.5), [1., .9]), k=inear(uf(.02, .3), [.06, .1]))
tank = dict(D=lf(.3, 6.), LD=lf(.2, 12.), horizontal=pick(True, False), A=head, B=head, same=pick('', '', '', 'A', 'B', 'twin', 'like_f', 'like_k'))
U = inear(uf(0., 1.), [0., 1., .5, 1e-4, 1 - 1e-4])
QA = 4e-8
def side(n, h, D):
    """keyword arguments of one head, and its depth ratio, reference depth"""
    if h['kind'] is None: return {'side' + n: None}, 0.
    kw = {'side' + n: h['kind']}
    if h['kind'] == 'torispherical':
        f, k = (1., .06) if h['how'] == 'default' else (h['f'], min(h['k'], h['f'] - .1))
        if h['how'] != 'default': kw.update({'side%s_f' % n: f, 'side%s_k' % n: k})
        return kw, S.depth(S.torispherical(D, f, k))
    a = .25 if h['how'] == 'default' else h['r']
    if h['how'] in ('a', 'both'): kw['side%s_a' % n] = a*D
    if h['how'] in ('ratio', 'both'): kw['side%s_a_ratio' % n] = a
    return kw, a*D
def spec(D, A, B, same, horizontal):
    """constructor arguments without the main dimensions; the effective heads; their depths"""
    if not horizontal:
        A, B = [dict(x, kind='conical') if x['kind'] == 'guppy' else x for x in (A, B)]   # guppy heads are for horizontal vessels
    if same == 'twin': B = dict(A)                     # two heads described alike
    elif same == 'like_f': B = dict(B, kind=A['kind'], f=A['f'])   # alike but for one dimension
    elif same == 'like_k': B = dict(B, kind=A['kind'], k=A['k'], r=A['r'])
    a, dA = side('A', A, D); b, dB = side('B', B, D)
    if same == 'B': b = dict(sideB='same'); B, dB = A, dA
    elif same == 'A': a = dict(sideA='same'); A, dA = B, dB
    return dict(a, **b, horizontal=horizontal), (A, B), (dA, dB)
def solid(h, d, D):
    if h['kind'] == 'torispherical': return S.torispherical(D, *((1., .06) if h['how'] == 'default' else (h['f'], min(h['k'], h['f'] - .1))))
    return dict(conical=S.conical, ellipsoidal=S.ellipsoidal, spherical=S.spherical)[h['kind']](D, d)
def refV(D, L, horizontal, hs, ds, h):
    if horizontal:
        v = L*float(S.seg_area(np.array([D/2]), h - D/2)[0])
        for x, d in zip(hs, ds):
            if x['kind'] == 'guppy': v += S.V_guppy(D, d, h)
            elif x['kind']: v += S.V_horiz(solid(x, d, D), D, h)
        return v
    v = pi/4*D*D*min(max(h - ds[0], 0.), L)
    if hs[0]['kind']: v += S.V_vert(solid(hs[0], ds[0], D), D, min(h, ds[0]))
    if hs[1]['kind'] and h > ds[0] + L: s = solid(hs[1], ds[1], D); v += S.V_vert(s, D, ds[1]) - S.V_vert(s, D, max(ds[1] - (h - ds[0] - L), 0.))
    return v
def refS(D, L, horizontal, hs, ds, h):
    if horizontal:
        R = np.array([D/2]); v = L*float(S.seg_arc(R, h - D/2)[0])
        for x, d in zip(hs, ds):
            if x['kind'] == 'guppy': v += S.S_guppy(D, d, h)
            elif x['kind']: v += S.S_horiz(solid(x, d, D), D, h)
            else: v += float(S.seg_area(R, h - D/2)[0])
        return v
    v = pi*D*min(max(h - ds[0], 0.), L)
    if hs[0]['kind']: v += S.S_vert(solid(hs[0], ds[0], D), D, min(h, ds[0]))
    else: v += pi/4*D*D
    if h >= ds[0] + L:
        if hs[1]['kind']: s = solid(hs[1], ds[1], D); v += S.S_vert(s, D, ds[1]) - S.S_vert(s, D, max(ds[1] - (h - ds[0] - L), 0.))
        else: v += pi/4*D*D
    return v
def ref_head(x, d, D, what):
    if not x['kind']: return 0. if what == 'V' else pi/4*D*D
    if x['kind'] == 'guppy': return S.V_guppy(D, d, D) if what == 'V' else None
    s = solid(x, d, D); return S.V_horiz(s, D, D) if what == 'V' else S.S_vert(s, D, d)
def nt(ctx, hs): ctx.nontrivial(any(x['kind'] for x in hs))
def consistent(ctx, t, D, L, horizontal, hs, ds):
    close(t.D, D, 1e-12, what='D'); close(t.L, L, 1e-12, what='L'); close(t.R, D/2, 1e-12, what='R')
    close(t.L_over_D, L/D, 1e-12, what='L_over_D')
    close(t.sideA_a, ds[0], 1e-10, what='sideA_a'); close(t.sideB_a, ds[1], 1e-10, what='sideB_a')
    close(t.sideA_a_ratio, ds[0]/D, 1e-10, what='sideA_a_ratio'); close(t.sideB_a_ratio, ds[1]/D, 1e-10, what='sideB_a_ratio')
    ensure((t.sideA, t.sideB) == (hs[0]['kind'], hs[1]['kind']), 'head types %r %r, expected %r %r', t.sideA, t.sideB, hs[0]['kind'], hs[1]['kind'])
    ensure(t.horizontal == horizontal and t.vertical == (not horizontal), 'orientation flags')
    close(t.h_max, D if horizontal else L + sum(ds), 1e-10, what='h_max')
    close(t.V_lateral, pi/4*D*D*L, 1e-10, what='V_lateral'); close(t.A_lateral, pi*D*L, 1e-10, what='A_lateral')
    for n, x, d, V, A, E in (('A', hs[0], ds[0], t.V_sideA, t.A_sideA, t.A_sideA_extra), ('B', hs[1], ds[1], t.V_sideB, t.A_sideB, t.A_sideB_extra)):
        close(V, ref_head(x, d, D, 'V'), 1e-6, QA + 1e-9*D**3, 'volume of head ' + n)
        w = ref_head(x, d, D, 'A')
        if w is not None: close(A, w, 1e-6, QA, 'area of head ' + n)
        close(E, A - pi/4*D*D, 1e-9, 1e-9*D*D, 'area of head %s beyond the flat plate' % n)
    close(t.V_total, t.V_lateral + t.V_sideA + t.V_sideB, 1e-10, what='V_total'); close(t.A, t.A_lateral + t.A_sideA + t.A_sideB, 1e-10, what='total area')
    close(t.V_from_h(t.h_max), t.V_total, 1e-6, QA, 'volume at the top'); ensure(abs(t.V_from_h(0.)) <= 1e-7*t.V_total, 'volume at the bottom %r', t.V_from_h(0.))
    if not any(x['kind'] == 'guppy' for x in hs): close(t.SA_from_h(t.h_max), t.A, 1e-5, QA, 'wetted area at the top')
@P.sub(rec(dims=pick('D,L', 'D,L_over_D', 'L,L_over_D', 'all'), **tank), n=250)
def from_dimensions(ctx, D, LD, horizontal, A, B, same, dims):
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); v = dict(D=D, L=L, L_over_D=LD)
    nt(ctx, hs)
    t = TANK(**kw, **{n: v[n] for n in (list(v) if dims == 'all' else dims.split(','))})
    consistent(ctx, t, D, L, horizontal, hs, ds)
@P.sub(rec(**dict(tank, same=pick('like_f', 'like_f', 'like_k', 'twin'), horizontal=pick(True, True, False), A=rec(kind=pick(HEADS + ['torispherical']), how=pick('a', 'a', 'both'), r=inear(uf(.02, .5), [.25, .1]), f=inear(uf(.6, 1.5), [1., .9]), k=inear(uf(.02, .3), [.06, .1])))), n=300)
def heads_alike_but_for_one_dimension(ctx, D, LD, horizontal, A, B, same):
    L = D*LD; kw, hs, ds = spec(D, A, dict(B, how=A['how']), same, horizontal)
    nt(ctx, hs); consistent(ctx, TANK(D=D, L=L, **kw), D, L, horizontal, hs, ds)
@P.sub(rec(D=lf(.3, 6.), LD=uf(.2, 12.), horizontal=pick(True, False), A=pick(None, *HEADS[:2], *HEADS[3:]), B=pick(*HEADS[:2], *HEADS[3:]), how=pick('a', 'ratio'), u=inear(uf(0., 1.2), [0., .5, 1.])), n=200)
def heads_of_no_depth(ctx, D, LD, horizontal, A, B, how, u):
    """a head whose depth is zero is a flat head"""
    if not horizontal: A, B = [None if x == 'guppy' else x for x in (A, B)]
    L = D*LD; z = 'a' if how == 'a' else 'a_ratio'; kw = dict(D=D, L=L, horizontal=horizontal)
    t0, t = TANK(**kw), TANK(sideA=A, sideB=B, **{'side%s_%s' % (n, z): 0. for n, x in (('A', A), ('B', B)) if x}, **kw)
    for n in ('V_total', 'A', 'h_max', 'V_sideA', 'V_sideB', 'A_sideA', 'A_sideB', 'A_sideA_extra', 'A_sideB_extra', 'V_lateral', 'A_lateral'): close(getattr(t, n), getattr(t0, n), 1e-9, 1e-9*D**2, n)
    h = u*t0.h_max
    close(t.V_from_h(h), t0.V_from_h(h), 1e-9, 1e-9*D**3, 'volume at level'); close(t.SA_from_h(h), t0.SA_from_h(h), 1e-9, 1e-7*D**2, 'wetted area at level')
    ctx.nontrivial(bool(A or B)); ctx.label(str(B))
def guppy_ok(hs, ds, D): return not any(x['kind'] == 'guppy' and abs(d - D/2) < 1e-9*D for x, d in zip(hs, ds))
@P.sub(rec(u=U, where=pick('any', 'any', 'jointA', 'jointB', 'above'), **tank), n=400)
def level(ctx, D, LD, horizontal, A, B, same, u, where):
    """volume and wetted area at a level are those of the vessel's solid, by the object and by the functions"""
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs); ctx.label(where)
    top = D if horizontal else L + sum(ds)
    h = u*top
    if not horizontal and where == 'jointA': h = ds[0]*(1 + (u - .5)*1e-3)
    if not horizontal and where == 'jointB': h = ds[0] + L + (u - .5)*1e-3*ds[1]
    if where == 'above': h = top*(1 + u)
    if abs(h/top - 1) < 1e-9: h = t.h_max      # a flat top is wetted all at once
    hr = top if h >= t.h_max else h; fl = 50. if any(x['kind'] in ('spherical',) for x in hs) else 1.
    V, SA = t.V_from_h(h), t.SA_from_h(h)
    close(V, refV(D, L, horizontal, hs, ds, hr), 1e-6, fl*(QA + 1e-8*D**3), 'volume at level')
    if guppy_ok(hs, ds, D):
        close(SA, refS(D, L, horizontal, hs, ds, hr), 1e-3 if horizontal and abs(hr/D - .5) < .0011 else 1e-5, QA + 1e-7*D*D, 'wetted area at level')
    args = dict(D=t.D, L=t.L, horizontal=horizontal, sideA=t.sideA, sideB=t.sideB, sideA_a=t.sideA_a, sideB_a=t.sideB_a, sideA_f=t.sideA_f, sideA_k=t.sideA_k, sideB_f=t.sideB_f, sideB_k=t.sideB_k)
    close(V_from_h(h, **args), V, 1e-13, what='V_from_h function'); close(SA_from_h(h, **args), SA, 1e-13, what='SA_from_h function')
    closes(V_tank(**args), (t.V_total, t.V_sideA, t.V_sideB, t.V_lateral), 1e-13, what='V_tank')
    del args['horizontal']; closes(SA_tank(**args), (t.A, t.A_sideA, t.A_sideB, t.A_lateral), 1e-13, what='SA_tank')
@P.sub(rec(known_dim=pick('D', 'L', 'L_over_D'), **tank), n=250, hang=60)
def from_volume(ctx, D, LD, horizontal, A, B, same, known_dim):
    """a volume and one dimension give the vessel of that volume"""
    if known_dim != 'D':   # head sizes must be ratios
        A, B = [dict(x, how='ratio') if x['how'] in ('a', 'both') else x for x in (A, B)]
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); ref = TANK(D=D, L=L, **kw); nt(ctx, hs); ctx.label(known_dim)
    t = TANK(V=ref.V_total, **{known_dim: dict(D=D, L=L, L_over_D=LD)[known_dim]}, **kw)
    tol = 1e-6 + 20*QA/ref.V_total + (1e-12 + QA)/min(ref.V_lateral/ref.V_total, 1)
    close(t.V_total, ref.V_total, 1e-7 + QA/ref.V_total, what='volume specified'); close(getattr(t, known_dim), dict(D=D, L=L, L_over_D=LD)[known_dim], 1e-10, what='dimension specified')
    close(t.D, D, tol, what='D'); close(t.L, L, tol*max(1., ref.V_total/ref.V_lateral), what='L'); close(t.L_over_D, t.L/t.D, 1e-10, what='L/D')
    consistent(ctx, t, t.D, t.L, horizontal, hs, [d*t.D/D for d in ds])
@P.sub(rec(given=pick('D', 'L', 'L_over_D', 'all', 'D,L'), known=False, **tank), n=150, hang=60)
def rebuilt_from_its_text(ctx, D, LD, horizontal, A, B, same, given, known):
    """repr(tank) builds the same vessel, however it was specified"""
    if given in ('L', 'L_over_D'): A, B = [dict(x, how='ratio') if x['how'] in ('a', 'both') else x for x in (A, B)]
    L = D*LD; v = dict(D=D, L=L, L_over_D=LD); kw, hs, ds = spec(D, A, B, same, horizontal); nt(ctx, hs); ctx.label(given)
    t = TANK(D=D, L=L, **kw)
    if given in v: t = TANK(V=t.V_total, **{given: v[given]}, **kw)
    elif given == 'all': t = TANK(**v, **kw)
    text = repr(t)
    if not known and given in v: text = re.sub(r', V=[^,()]*', '', text); ensure(text != repr(t), 'no volume in the text')     # refused as overspecified (recorded finding)
    w = eval(text, {'TANK': TANK})
    for n in ('D', 'L', 'R', 'L_over_D', 'V_total', 'V_sideA', 'V_sideB', 'V_lateral', 'A', 'A_sideA', 'A_sideB', 'h_max', 'sideA_a', 'sideB_a', 'sideA_a_ratio', 'sideB_a_ratio'): close(getattr(w, n), getattr(t, n), 1e-11, 1e-13, what=n + ' of the vessel rebuilt from its text')
    ensure((w.sideA, w.sideB, w.horizontal) == (t.sideA, t.sideB, t.horizontal), 'heads or orientation changed')
    h = .37*t.h_max; close(w.V_from_h(h), t.V_from_h(h), 1e-9, QA, what='contents at a level')
    ensure(repr(w) == repr(t) or given in v, 'text changed by rebuilding: %s / %s', repr(w), repr(t)); ensure(hash(w) == hash(TANK(**{n: getattr(w, n) for n in TANK.model_inputs if n != 'V'})), 'hash')
@P.sub(rec(u=U, n=pick(None, 5, 20, 100, 173), dx=pick(None, None, .01, .07), **tank), n=60, hang=90)
def table_lookup(ctx, D, LD, horizontal, A, B, same, u, n, dx):
    """the lookup table brackets: volumes between two tabulated ones give heights between their heights, and tabulated ones their height"""
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs)
    if n is not None or dx is not None: t.set_table(**dict(({'n': n} if n else {}), **({'dx': dx*t.h_max} if dx else {})))
    V = u*t.V_total; h = t.h_from_V(min(V, t.V_from_h(t.h_max)))
    hsx, Vs = list(t.heights), list(t.volumes)
    ensure(abs(hsx[0]) <= 1e-12 and abs(hsx[-1] - t.h_max) <= 1e-9*t.h_max, 'table spans %r to %r of %r', hsx[0], hsx[-1], t.h_max)
    ensure(len(hsx) == (int(t.h_max/(dx*t.h_max)) + 1 if dx else n or 100), 'table of %d rows', len(hsx))
    i = min(max(bisect.bisect_right(Vs, V) - 1, 0), len(Vs) - 2)
    ensure(hsx[i] - 1e-6*t.h_max <= h <= hsx[i + 1] + 1e-6*t.h_max, 'height %r outside the tabulated bracket %r .. %r', h, hsx[i], hsx[i + 1])
    j = int(u*(len(Vs) - 1)); close(t.h_from_V(Vs[j]), hsx[j], 1e-6, 1e-6*t.h_max, 'tabulated row')
    close(Vs[j], refV(D, L, horizontal, hs, ds, hsx[j]), 1e-6, 50*(QA + 1e-8*D**3), 'tabulated volume')
@P.sub(rec(u=uf(.001, .999), **tank), n=200, hang=60)
def inverse(ctx, D, LD, horizontal, A, B, same, u):
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs)
    h = u*t.h_max; V = t.V_from_h(h); h2 = t.h_from_V(V, 'brenth')
    ensure(-1e-9 <= h2 <= t.h_max*(1 + 1e-9), 'height %r outside the vessel', h2)
    close(t.V_from_h(h2), V, 1e-6, 2e-7*t.V_total + QA, 'volume at the height found')
    close(h2, h, 1e-5, 2e-3*t.h_max if (QA + 2e-7*t.V_total) > 1e-5*V else 1e-5*t.h_max, 'height from volume')
@P.sub(rec(u=uf(.02, .98), **tank), n=24, hang=120)
def chebyshev(ctx, D, LD, horizontal, A, B, same, u):
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs)
    if any(x['kind'] == 'torispherical' for x in hs): t.set_chebyshev_approximators(deg_forward=50, deg_backwards=60)
    h = u*t.h_max; V = t.V_from_h(h, 'full')
    close(float(t.V_from_h(h, 'chebyshev')), V, 0, 5e-3*t.V_total, 'chebyshev volume')
    close(float(t.h_from_V(V, 'chebyshev')), h, 0, 3e-2*t.h_max, 'chebyshev height')
    # what it approximates is invertible exactly
    close(t.h_from_V(V, 'brenth'), h, 1e-4, 1e-4*t.h_max, 'brenth height after setting the approximators')
@P.sub(rec(u=uf(.03, .97), **tank), n=200)
def cross_section(ctx, D, LD, horizontal, A, B, same, u):
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs)
    ensure(t.A_cross_sectional(0.) == 0 and t.A_cross_sectional(t.h_max) == 0, 'free surface at the ends')
    if any(x['kind'] == 'torispherical' for x in hs): raise SkipCase    # numerical derivative of a quadrature
    h = u*t.h_max; e = 1e-3*t.h_max
    if not horizontal and (abs(h - ds[0]) < 2*e or abs(h - ds[0] - L) < 2*e): raise SkipCase
    w = lambda x: refV(D, L, horizontal, hs, ds, x)
    want = (8*(w(h + e) - w(h - e)) - (w(h + 2*e) - w(h - 2*e)))/(12*e)
    close(t.A_cross_sectional(h), want, 1e-3, 1e-4*D*(L + D) if horizontal else 1e-4*D*D, 'free surface area')
@P.sub(rec(dt=lf(1e-3, .2), dA=opt(lf(1e-3, .2)), dB=opt(lf(1e-3, .2)), **tank), n=150)
def thickness(ctx, D, LD, horizontal, A, B, same, dt, dA, dB):
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs); before = t.V_total
    if horizontal and any(x['kind'] == 'spherical' and d + (dt if e is None else e) > D/2 + dt for x, d, e in zip(hs, ds, (dA, dB))): raise SkipCase    # more than a hemisphere
    o = t.add_thickness(dt, sideA_thickness=dA, sideB_thickness=dB)
    a, b = dt if dA is None else dA, dt if dB is None else dB
    close(o.D, D + 2*dt, 1e-12, what='outer diameter'); close(o.L, L + a + b, 1e-12, what='outer length')
    for n, x, d, th, got in (('A', hs[0], ds[0], a, o.sideA_a), ('B', hs[1], ds[1], b, o.sideB_a)):
        if x['kind'] == 'torispherical': close(got, d*(D + 2*dt)/D, 1e-10, what='outer depth of head ' + n)
        elif x['kind']: close(got, d + th, 1e-10, what='outer depth of head ' + n)
    ensure((o.sideA, o.sideB, o.horizontal) == (t.sideA, t.sideB, t.horizontal), 'heads or orientation changed')
    ensure(t.V_total == before and t.D == D, 'original tank changed'); ensure(o.V_total > t.V_total, 'outer volume not larger')
@P.sub(rec(ops=flist(pick('table', 'table20', 'cheb', 'hV', 'hVb', 'SA', 'thick', 'cross', 'repr'), 1, 8), u=uf(.01, .99), **tank), n=25, hang=120)
def histories(ctx, D, LD, horizontal, A, B, same, ops, u):
    """whatever was set up or looked up before, the vessel and its answers stay the same"""
    L = D*LD; kw, hs, ds = spec(D, A, B, same, horizontal); t = TANK(D=D, L=L, **kw); nt(ctx, hs)
    state = lambda: [getattr(t, n) for n in ('D', 'L', 'R', 'L_over_D', 'sideA', 'sideB', 'sideA_a', 'sideB_a', 'sideA_a_ratio', 'sideB_a_ratio', 'V_total', 'V_sideA', 'V_sideB', 'V_lateral', 'A', 'A_sideA', 'A_sideB', 'h_max')]
    h = u*t.h_max; V, SA, s0, hash0 = t.V_from_h(h), t.SA_from_h(h), state(), hash(t)
    for o in ops:
        if o == 'table': t.set_table()
        elif o == 'table20': t.set_table(20)
        elif o == 'cheb': t.set_chebyshev_approximators(deg_forward=12, deg_backwards=12)
        elif o == 'hV':
            x = t.h_from_V(V); g = max(b - a for a, b in zip(t.heights, t.heights[1:])); ensure(abs(x - h) <= g*(1 + 1e-6), 'height %r from the table, true %r', x, h)
        elif o == 'hVb': close(t.h_from_V(V, 'brenth'), h, 1e-4, 2e-3*t.h_max, 'height')
        elif o == 'SA': ensure(t.SA_from_h(h) == SA, 'wetted area changed')
        elif o == 'thick': t.add_thickness(.01)
        elif o == 'cross': t.A_cross_sectional(h)
        else: repr(t)
        ensure(state() == s0 and t.V_from_h(h) == V and hash(t) == hash0, 'tank changed after %s', o)
@P.sub(rec(names=pick(('V', 'SA'), ('V', 'A_cross'), ('SA', 'V'), ('V', 'V_partial'), ('V', 'SA_partial'), ('A_cross', 'V'), ('SA_partial', 'V')), u=uf(.3, .7), D=lf(.7, 3.), LD=uf(1.2, 6.), horizontal=pick(True, False), kind=pick(None, 'conical', 'ellipsoidal', 'spherical'), r=uf(.1, .4)), n=100, hang=60)
def two_specs(ctx, names, u, D, LD, horizontal, kind, r):
    """a tank solved from two specified quantities has them"""
    kw = dict(horizontal=horizontal); ctx.nontrivial(kind is not None)
    if kind: kw.update(sideA=kind, sideB=kind, sideA_a_ratio=r, sideB_a_ratio=r)
    t = TANK(D=D, L_over_D=LD, **kw); h = u*(t.D if horizontal else t.h_max)
    q = lambda t, n: dict(V=lambda: t.V_total, SA=lambda: t.A, A_cross=lambda: t.A_cross_sectional(min(h, t.h_max)), V_partial=lambda: t.V_from_h(h), SA_partial=lambda: t.SA_from_h(h))[n]()
    kws = {} if not any('_' in n for n in names) else dict(h=h)
    try: s = TANK.from_two_specs(q(t, names[0]), q(t, names[1]), *names, **kws, **kw)
    except ValueError as e:
        if 'Could not find' in str(e) or type(e) is not ValueError: ctx.label('refused'); ctx.trivial(); return
        raise
    for n in names: close(q(s, n), q(t, n), 1e-4, what='specified ' + n)
@P.sub(rec(which=pick(range(13)), **tank), n=120)
def rejections(ctx, D, LD, horizontal, A, B, same, which):
    L = D*LD
    bad = [dict(D=D, L=L, sideA='same', sideB='same'), dict(D=D, L=L, sideA='flat'), dict(D=D, L=L, sideB='elliptical'), dict(V=LD, D=D, L=L), dict(V=LD, D=D, L_over_D=LD), dict(V=LD, L=L, L_over_D=LD),
           dict(V=LD, L=L, sideA='conical', sideA_a=.1), dict(V=LD, L=L, sideB='ellipsoidal', sideB_a=.1), dict(D=D, L=L, sideA='torispherical', sideA_a=.3*D), dict(D=D, L=L, sideB='torispherical', sideB_a=.3*D)]
    if which < len(bad): raises(ValueError, TANK, horizontal=horizontal, what='%r' % bad[which], **bad[which])
    elif which == 10: raises((ValueError, TypeError), TANK, D=D, horizontal=horizontal, what='diameter only')
    else:
        t = TANK(D=D, L=L, horizontal=horizontal)
        raises(ValueError, t.V_from_h, L/9, 'fast', what='V_from_h method'); raises(ValueError, t.h_from_V, 1., 'newton', what='h_from_V method'); raises(ValueError, t.SA_from_h, L/9, 'fast', what='SA_from_h method')
    ctx.nontrivial(True)
