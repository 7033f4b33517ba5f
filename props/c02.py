"""C02: fluids.vectorized against the scalar functions, element by element."""
from math import *
import random, warnings
import numpy as np
import fluids, fluids.vectorized as V
from vf import corpus
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C02', rule='Recorded valid calls moved at random, several of them combined element by element in arrays, lists, nested lists, 0-d and size-1 arrays that broadcast together. Non-trivial: at least two different elements.',
         assumptions=['functions taking or returning lists cannot be vectorized by numpy and are left out', 'empty arrays are not accepted by numpy.vectorize'])
LISTS = {fn for fn, L in corpus.CALLS.items() if any(isinstance(v, (list, tuple, dict)) for e in L for v in e.values())} | {'A_multiple_hole_cylinder', 'V_multiple_hole_cylinder', 'diffuser_conical_staged', 'solar_position', 'psd_spacing', 'liquid_jet_pump'}
NAMES = sorted(fn for fn in set(corpus.CALLS) - LISTS if not fn.endswith('_methods'))
SIG = {}
for fn in NAMES:
    for j, e in enumerate(corpus.CALLS[fn]): SIG.setdefault(fn, {}).setdefault(tuple(sorted((k, v is None) for k, v in e.items())), []).append(j)

def eq(a, b):
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    return a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)
def shape_of(v, how, n, axis):
    """the n values as an array along one of two axes"""
    a = np.empty(n, object); a[:] = v
    if all(isinstance(x, float) for x in v): a = a.astype(float)
    elif all(isinstance(x, bool) for x in v): a = a.astype(bool)
    elif all(isinstance(x, int) for x in v): a = a.astype(int)
    elif all(isinstance(x, str) for x in v): a = a.astype(str)
    if axis == 1: a = a.reshape(n, 1)
    return a.tolist() if how else a
def one(ctx, fn, i, pts, mask, axis, how, n2, nested):
    """elements along axis 0 vary the arguments in mask with bit set, along axis 1 the others; the rest scalar"""
    f, F = getattr(fluids, fn), getattr(V, fn); e = corpus.CALLS[fn][i % len(corpus.CALLS[fn])]; group = SIG[fn][tuple(sorted((k, v is None) for k, v in e.items()))]
    E = [corpus.perturb(fn, corpus.entry(fn, i if j == 0 or not p['other'] else group[p['other'] % len(group)]), [2*x - 1 for x in p['g']], [2*x - 1 for x in p['own']]) for j, p in enumerate(pts)]
    for x in E:
        for k in x:
            if corpus.movable(fn, k, x[k]): x[k] = float(x[k])
    keys = sorted(E[0]); n = len(E); two = axis and len(keys) > 1; args, cells = {}, {}
    for j, k in enumerate(keys):
        role = mask[j % len(mask)] % 4          # 0 scalar, 1 and 2 axis one, 3 the second axis when there is one
        vals = [x[k] for x in E]
        if vals[0] is None or isinstance(vals[0], (list, tuple, dict)) or not isinstance(vals[0], (int, float, str, bool)): role = 0
        if any(type(v) is not type(vals[0]) for v in vals): role = 0
        if role == 3 and not two: role = 1
        if role == 0:
            args[k] = vals[0] if how < 3 or not isinstance(vals[0], float) else np.array(vals[0]) if how == 3 else np.array([vals[0]]); cells[k] = (0, vals[:1])
        elif role == 3: args[k] = shape_of(vals[:n2], how % 2, min(n, n2), 0); cells[k] = (2, vals[:n2])
        else: args[k] = shape_of(vals, how % 2, n, 1 if two else 0); cells[k] = (1, vals)
    R = range(n) if any(c[0] == 1 for c in cells.values()) else range(1); S = range(min(n, n2)) if any(c[0] == 2 for c in cells.values()) else range(1)
    if len(R)*len(S) == 1: ctx.trivial()
    want, err = {}, None
    for r in R:
        for s in S:
            try: want[r, s] = f(**{k: (c[1][0] if c[0] == 0 else c[1][r] if c[0] == 1 else c[1][s]) for k, c in cells.items()})
            except Exception as x: err = err or x
    if err is not None:
        raises(Exception, F, what='%s: an element raises %r' % (fn, err), **args); ctx.label('raises'); return
    types = {type(w) for w in want.values()}
    if fn == 'motor_efficiency_underloaded' and int in types: raise SkipCase('known finding, checked in underloaded_plateau')
    if any(isinstance(v, complex) for w in want.values() if type(w) is tuple for v in w): raise SkipCase('complex')
    if (len(types) > 1 and not types <= {int, float}) or not types <= {float, int, bool, str, tuple}: raise SkipCase('results %r' % types)
    got = F(**args); shape = np.broadcast_shapes(*[np.shape(a) if not isinstance(a, str) and a is not None else () for a in args.values()])
    def check(G, W, what):
        ensure(np.shape(G) == shape, '%s: shape %r, broadcast shape %r' % (what, np.shape(G), shape)); G = np.asarray(G).reshape(len(R), len(S))
        for (r, s), w in W.items(): ensure(eq(G[r, s], w), '%s element %r: %r, scalar function %r' % (what, (r, s), G[r, s], w))
    if types == {tuple}:
        m = {len(w) for w in want.values()}; ensure(len(m) == 1 and isinstance(got, tuple) and len(got) in m, '%s: %d results' % (fn, len(got)))
        for j in range(len(got)): check(got[j], {q: w[j] for q, w in want.items()}, '%s result %d' % (fn, j))
    else: check(got, want, fn)
PT = rec(g=flist(unit, 5, 5), own=flist(unit, 7, 7), other=ints(0, 20))
@P.sub(rec(fn=pick(NAMES), i=ints(0, 39), pts=flist(PT, 1, 4), mask=flist(ints(0, 3), 6, 6), axis=pick([False, True]), how=ints(0, 4), n2=ints(1, 4), nested=False), n=3000, thorough=50000)
def calls(ctx, **a): one(ctx, **a)

class QUIET:
    label = trivial = staticmethod(lambda *a: None)
@P.sub(rec(s=ints(0, 10**6)), n=6, thorough=30)
def sweep(ctx, s):
    """every function, up to four recorded calls of each, in random arrays"""
    R = random.Random(s); r = lambda n: [R.random() for _ in range(n)]; done = 0
    for fn in NAMES:
        for c, i in enumerate(R.sample(range(len(corpus.CALLS[fn])), min(6, len(corpus.CALLS[fn])))):
            a = dict(fn=fn, i=i, pts=[dict(g=r(5), own=r(7), other=R.randint(0, 20)) for _ in range(R.choice([1, 3, 4, 5]))], mask=[R.randint(0, 3) for _ in range(6)], axis=R.random() < .5, how=R.randint(0, 4), n2=R.randint(1, 4), nested=False)
            if c % 2 == 0: a.update(mask=[1]*6, pts=[dict(g=r(5), own=r(7), other=R.randint(0, 40)) for _ in range(8)])    # all of one shape, from different recorded calls
            try: one(QUIET, **a); done += 1
            except SkipCase: pass
            except Violation as x: fail('%s; case %r' % (x, a))
            except Exception as x: fail('%r: %s: %s' % (a, type(x).__name__, x))
    ensure(done > 600, 'only %d calls' % done)

@P.sub(rec(x=lf(1e-3, 1e3), y=lf(1e-3, 1e3)), n=20, thorough=100)
def namespace(ctx, x, y):
    """the namespace holds every function and object of fluids"""
    import types
    for n in dir(fluids):
        if n.startswith('__') or n in ('optional', 'nrlmsise00', 'vectorized', 'units', 'numba') or isinstance(getattr(fluids, n), types.ModuleType): continue
        ensure(hasattr(V, n), n + ' is missing'); o = getattr(fluids, n)
        if not isinstance(o, types.FunctionType): ensure(getattr(V, n) is o, n + ' replaced')
        else: ensure(isinstance(getattr(V, n), np.vectorize) and getattr(V, n).pyfunc is o, n + ' is not vectorized')
    ensure(set(V.__all__) >= {n for n in dir(fluids) if n not in ('all_submodules', '__getattr__') and isinstance(getattr(fluids, n), types.FunctionType)}, '__all__')
    a = V.Reynolds([x, y], np.array([[y], [x], [1.]]), nu=[[x]]); ensure(a.shape == (3, 2), 'shape')
    for i, D in enumerate((y, x, 1.)):
        for j, v in enumerate((x, y)): ensure(a[i, j] == fluids.Reynolds(v, D, nu=x), 'positional')

@P.sub(rec(P=lf(1e2, 1e6), a=uf(0, 1), b=uf(0, 1), known=False), n=60, thorough=2000)
def underloaded_plateau(ctx, P, a, b, known):
    """motor_efficiency_underloaded is an integer on its plateau (docs/tutorial.rst pins it), from which numpy takes the type of a whole array"""
    want = [fluids.motor_efficiency_underloaded(P, x) for x in (a, b)]
    if type(want[0]) is int and not known:
        got = V.motor_efficiency_underloaded(P, np.array([b, a])); want.reverse()
        if type(want[0]) is int: return ctx.trivial()
    else: got = V.motor_efficiency_underloaded(P, np.array([a, b]))
    ensure([float(x) for x in got] == [float(x) for x in want], 'elements %r, scalar function %r' % (list(got), want))
