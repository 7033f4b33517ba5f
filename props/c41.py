"""C41: list based linear algebra against exact rational arithmetic."""
from math import *
import itertools
import numpy as np
from fractions import Fraction as Fr
from fluids.numerics import arrays as ar
fn = ar
from vf.core import *

P = Prop('C41', rule='Matrices of 1 to 8 rows: dense, integer, permuted, triangular, badly scaled, nearly singular, sparse; non-trivial: at least 2 rows.', assumptions=['error of a solution bounded by the condition number, its square for the closed forms of two and three rows'])
EPS = 2.3e-16
def make(n, seed, kind, sc, m=None):
    r = np.random.RandomState(seed % 2**32); m = m or n
    if kind == 'int': A = r.randint(-5, 6, (n, m)).astype(float)
    else: A = r.uniform(-1, 1, (n, m))
    if kind == 'tri': A = np.triu(A)[:, :]
    if kind == 'permuted': A = np.eye(n, m)[r.permutation(n)]*r.choice([-3., .5, 2.], (1, m)) + (np.triu(r.uniform(-.1, .1, (n, m)), 1)[r.permutation(n)] if r.rand() < .5 else 0)
    if kind == 'sparse': A = A*(r.rand(n, m) < .5)
    if kind == 'close': A[-1] = A[0] + 10**r.uniform(-8, -2)*A[-1]
    if kind == 'rows': A = A*(10**r.uniform(-4, 4, (n, 1)))
    if kind == 'zero corner': A[0, 0] = 0.
    return [[float(v)*sc for v in row] for row in A]
KINDS = pick(['int', 'dense', 'tri', 'permuted', 'sparse', 'close', 'rows', 'zero corner'])
MAT = dict(n=ints(1, 8), seed=ints(0, 10**9), kind=KINDS, sc=pick([1., 1., 1e-5, 1e5, 1e-9, 1e9]))
def F(A): return [[Fr(v) for v in row] for row in A]
def elim(A, B):
    """Exact determinant and solution of A X = B."""
    n = len(A); A = [list(r) + list(b) for r, b in zip(F(A), F(B))]; d = Fr(1)
    for j in range(n):
        p = next((i for i in range(j, n) if A[i][j] != 0), None)
        if p is None: return Fr(0), None
        if p != j: A[p], A[j] = A[j], A[p]; d = -d
        d *= A[j][j]; inv = 1/A[j][j]
        for i in range(n):
            if i != j and A[i][j] != 0:
                f = A[i][j]*inv; A[i] = [x - f*y for x, y in zip(A[i], A[j])]
    return d, [[v/A[i][i] for v in A[i][n:]] for i in range(n)]
def ninf(A): return max(sum(abs(v) for v in r) for r in A)
def keep(x): return [list(r) if isinstance(r, (list, tuple)) else r for r in x]
@P.sub(rec(bs=ints(0, 10**6), **MAT), n=900, thorough=15000)
def square(ctx, bs, n, seed, kind, sc):
    """det, inv, lu and solve of one matrix."""
    A = make(n, seed, kind, sc); r = np.random.RandomState(bs); b = [float(v) for v in (r.randint(-9, 10, n) if bs % 2 else r.uniform(-5, 5, n))]; k, kb = keep(A), list(b)
    D, X = elim(A, [[float(i == j) for j in range(n)] + [b[i]] for i in range(n)])
    had = 1.
    for row in A: had *= sqrt(sum(v*v for v in row))
    pa = 1.
    for row in A: pa *= sum(abs(v) for v in row)
    d = fn.det(A); ensure(isinstance(d, float), 'det returned a %s' % type(d).__name__); close(d, float(D), 0, 4e-15*n*n*pa + 1e-300, 'determinant')
    if n == 1: ctx.trivial()
    if D == 0:
        ctx.label('singular')
        if any(all(v == 0 for v in row) for row in A) or any(all(row[j] == 0 for row in A) for j in range(n)):     # rounding hides other singular matrices from elimination
            for f, a in ((fn.inv, (A,)), (fn.lu, (A,)), (fn.solve, (A, b))): raises((ValueError, ZeroDivisionError), f, *a, what='%s of a singular matrix' % f.__name__)
        ensure(A == k and b == kb, 'inputs modified'); return
    I = [[float(v) for v in row[:n]] for row in X]; x = [float(row[n]) for row in X]; cond = ninf(A)*ninf(I); small = 1 if n > 3 or n == 1 else max(1., cond)
    # the closed forms fall back to elimination below an absolute determinant; they are not scaled by rows
    tol = 2e-15*n**3*cond*small + 1e-14
    if tol < 1e-2:
        got = fn.inv(A); s = ninf(I); ensure(len(got) == n and all(len(q) == n for q in got), 'shape of the inverse')
        for i in range(n): closes(got[i], I[i], 0, tol*s, 'row %d of the inverse' % i)
        got = fn.solve(A, b); closes(got, x, 0, tol*ninf(I)*max(map(abs, b)) + 1e-300, 'solution'); ctx.label('accurate')
        if cond < 1e4: ctx.label('well conditioned')
    P_, L, U = fn.lu(A)
    for M_ in (P_, L, U): ensure(len(M_) == n and all(len(q) == n for q in M_), 'shape')
    perm = []
    for i in range(n):
        ensure(sorted(P_[i]) == [0.]*(n - 1) + [1.], 'permutation'); perm.append(P_[i].index(1.))
        ensure(L[i][i] == 1. and all(v == 0 for v in L[i][i + 1:]) and all(v == 0 for v in U[i][:i]) and all(abs(v) <= 1 + 1e-15 for v in L[i]), 'triangular factors with partial pivoting')
    ensure(sorted(perm) == list(range(n)), 'permutation')
    for i in range(n):
        for j in range(n):
            q = sum(Fr(L[i][t])*Fr(U[t][j]) for t in range(n)); close(float(q), A[perm[i]][j], 0, 1e-15*n*sum(abs(L[i][t]*U[t][j]) for t in range(n)) + 1e-300, 'P A = L U')
    ensure(A == k and b == kb, 'inputs modified')
@P.sub(rec(n=ints(1, 8), seed=ints(0, 10**9), dom=pick([True, False])), n=300, thorough=5000)
def tridiagonal(ctx, n, seed, dom):
    r = np.random.RandomState(seed); a, b, c, d = [[float(v) for v in r.uniform(-2, 2, k)] for k in (n - 1, n, n - 1, n)]
    if dom: b = [v + copysign(4.5, v) for v in b]
    A = ar.tridiagonals_as_array(a, b, c); want = [[b[i] if i == j else a[j] if i == j + 1 else c[i] if j == i + 1 else 0. for j in range(n)] for i in range(n)]
    ensure(A == want, 'matrix of the diagonals'); ensure(tuple(map(list, fn.array_as_tridiagonals(A))) == (a, b, c), 'diagonals of the matrix'); ensure(len({id(q) for q in A}) == n, 'rows are shared')
    ensure(ar.tridiagonals_as_array([1], [2, 3], [4], 7)[0] == [2, 4] and ar.tridiagonals_as_array([1, 1], [2, 3, 4], [4, 4], 7)[0][2] == 7, 'zero'); k = keep([a, b, c, d])
    D, X = elim(A, [[v] for v in d])
    if D == 0: return
    x = [float(v[0]) for v in X]; I = np.linalg.inv(A); cond = ninf(A)*ninf(I.tolist())
    piv, p = inf, b[0]
    for i in range(n):
        p = b[i] - (a[i - 1]*c[i - 1]/p if i else 0.); piv = min(piv, abs(p))
        if p == 0: return
    got = fn.solve_tridiagonal(a, b, c, d); closes(got, x, 0, 1e-14*n*cond*max(map(abs, x))*(1 + ninf(A)**2/piv**2), 'solution'); ensure([a, b, c, d] == k, 'inputs modified')
    if n < 2: ctx.trivial()
V = uf(-10, 10) | ints(-9, 9)
@P.sub(rec(m=ints(1, 5), p=ints(1, 5), n=ints(1, 5), seed=ints(0, 10**9), intm=pick([True, False]), s=uf(-9, 9) | pick([0.]), bad=pick([None, None, 'ragged', 'size', 'empty', 'empty row'])), n=500, thorough=8000)
def products(ctx, m, p, n, seed, intm, s, bad):
    r = np.random.RandomState(seed); g = lambda a, b: [[int(v) if intm else float(v) for v in row] for row in r.randint(-9, 10, (a, b))*(1 if intm else r.uniform(.1, 1))]
    A, B, C = g(m, p), g(p, n), g(m, p); v, w = g(1, p)[0], g(1, p)[0]
    if bad:
        E = {'ragged': [list(q) for q in A] + [[1.]*(p + 1)], 'size': [[1.]*(p + 1)]*(m + 1), 'empty': [], 'empty row': [[]]}[bad]; ctx.label(bad)
        for f in (fn.sum_matrix_rows, fn.sum_matrix_cols):
            if bad != 'size': raises(ValueError, f, E, what=f.__name__)
        for f in (fn.scalar_add_matrices, fn.scalar_subtract_matrices): raises(ValueError, f, E, A, what=f.__name__); raises(ValueError, f, A, E, what=f.__name__)
        if bad == 'ragged': raises(ValueError, fn.transpose, E, what='transpose'); raises(ValueError, fn.matrix_multiply, E, B, what='product'); raises(ValueError, fn.matrix_vector_dot, E, v, what='product')
        elif bad == 'size': raises(ValueError, fn.matrix_multiply, E, B, what='product'); raises(ValueError, fn.matrix_vector_dot, E, v, what='product'); raises(ValueError, fn.dot_product, E[0], v, what='dot product'); raises(ValueError, fn.sort_paired_lists, E[0], v, what='sort')
        else: raises(ValueError, fn.matrix_multiply, E, B, what='product'); raises(ValueError, fn.matrix_multiply, A, E, what='product'); raises(ValueError, fn.scalar_multiply_matrix, 2., E, what='scale'); raises(ValueError, fn.scalar_divide_matrix, 2., E, what='scale'); ensure(fn.transpose(E) == [], 'transpose of nothing')
        raises(ZeroDivisionError, fn.scalar_divide_matrix, 0., A, what='division by zero'); return
    k = keep(A), keep(B), keep(C), list(v)
    def same(got, want, what, t=1e-14):
        ensure(len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)), what + ' shape')
        for a, b in zip(got, want):
            for x, y in zip(a, b): close(x, float(y), 0, t*1000, what)
    fa, fb, fc = F(A), F(B), F(C)
    same(fn.matrix_multiply(A, B), [[sum(fa[i][q]*fb[q][j] for q in range(p)) for j in range(n)] for i in range(m)], 'product')
    same([fn.matrix_vector_dot(A, v)], [[sum(x*Fr(y) for x, y in zip(row, v)) for row in fa]], 'product with a vector'); same([[fn.dot_product(v, w)]], [[sum(Fr(x)*Fr(y) for x, y in zip(v, w))]], 'dot product')
    same([fn.sum_matrix_rows(A)], [[sum(row) for row in fa]], 'row sums'); same([fn.sum_matrix_cols(A)], [[sum(row[j] for row in fa) for j in range(p)]], 'column sums')
    same(fn.scalar_add_matrices(A, C), [[x + y for x, y in zip(a, b)] for a, b in zip(fa, fc)], 'sum'); same(fn.scalar_subtract_matrices(A, C), [[x - y for x, y in zip(a, b)] for a, b in zip(fa, fc)], 'difference')
    same(fn.scalar_multiply_matrix(s, A), [[Fr(s)*x for x in a] for a in fa], 'multiple')
    if s: same(fn.scalar_divide_matrix(s, A), [[x/Fr(s) for x in a] for a in fa], 'quotient', 1e-14/min(abs(s), 1))
    T = fn.transpose(A); ensure(T == [[A[i][j] for i in range(m)] for j in range(p)], 'transpose'); S = fn.stack_vectors([v, w]); ensure(S == [v, w] and S[0] is not v, 'stack'); ensure(fn.stack_vectors([]) == [], 'stack of nothing')
    close(fn.norm2(v), float(np.linalg.norm(v)), 1e-14, 1e-300, 'norm'); ensure(fn.shape(A) == (m, p) and fn.shape(v) == (p,) and fn.shape(np.array(A)) == (m, p) and fn.shape([A, A]) == (2, m, p) and fn.shape([]) == (0,) and fn.shape(tuple(v)) == (p,), 'shape')
    E = fn.eye(m); ensure(E == np.eye(m).tolist() and len({id(q) for q in E}) == m, 'identity'); ensure(fn.eye(m, int) == np.eye(m, dtype=int).tolist() and type(fn.eye(m, int)[0][0]) is int, 'integer identity')
    raises(ValueError, fn.eye, 0, what='eye(0)'); raises(TypeError, fn.eye, 2., what='eye(2.)'); ensure((keep(A), keep(B), keep(C), list(v)) == k, 'inputs modified')
    if m*p*n < 4: ctx.trivial()
@P.sub(rec(n=ints(1, 7), seed=ints(0, 10**9), sub=flist(ints(0, 6), 0, 5), how=pick(['list', 'tuple', 'slice', 'slice', 'open slice', 'range']), a=ints(0, 6), b=ints(0, 7), st=pick([1, 2, 3])), n=300, thorough=4000)
def subsets(ctx, n, seed, sub, how, a, b, st):
    r = np.random.RandomState(seed); A = r.randint(-9, 10, (n, n)).astype(float).tolist(); a, b = min(a, n - 1), min(b, n)
    S = {'list': [v % n for v in sub], 'tuple': tuple(v % n for v in sub), 'slice': slice(a, b, st), 'open slice': [slice(a, None), slice(None, b), slice(a, b), slice(None, None, st)][seed % 4], 'range': range(a, b, st)}[how]
    idx = list(range(n))[S] if isinstance(S, slice) else list(S); k = keep(A)
    got = fn.subset_matrix(A, S); ensure(got == [[A[i][j] for j in idx] for i in idx], 'subset_matrix(%r)' % (S,)); ensure(A == k, 'input modified')
    if len(idx) < 1: ctx.trivial()
@P.sub(rec(v=flist(ints(-4, 4) | uf(-2, 2), 0, 12), words=pick([True, False])), n=300, thorough=4000)
def sorting(ctx, v, words):
    """Stable order; the second list follows the first."""
    other = ['%d' % i for i in range(len(v))] if words else list(range(len(v))); k = list(v), list(other)
    want = sorted(range(len(v)), key=lambda i: (v[i], i)); ensure(fn.argsort1d(v) == want, 'argsort'); a, b = fn.sort_paired_lists(v, other)
    ensure(a == [v[i] for i in want] and b == [other[i] for i in want], 'paired lists'); ensure((v, other) == k, 'inputs modified')
    if len(v) < 2: ctx.trivial()
@P.sub(rec(m=ints(1, 6), n=ints(1, 6), rank=ints(0, 6), seed=ints(0, 10**9), exact=pick([True, False]), sc=pick([1., 1e-4, 1e4])), n=400, thorough=6000)
def least_squares(ctx, m, n, rank, seed, exact, sc):
    """Minimum norm least squares and null space of a matrix of known rank."""
    r = np.random.RandomState(seed); k = min(rank, m, n); A_ = r.uniform(-1, 1, (m, k)) @ r.uniform(-1, 1, (k, n))*sc if k else np.zeros((m, n))
    if k and np.linalg.svd(A_)[1][k - 1] < 1e-3*sc: raise SkipCase
    A = A_.tolist(); b = (A_ @ r.uniform(-1, 1, n)).tolist() if exact else r.uniform(-1, 1, m).tolist(); kp = keep(A), list(b); ctx.label('rank %d' % k)
    rc = None if k == 0 else 1e-10; x, res, rk, s = fn.gelsd(A, b, rc); ensure((keep(A), b) == kp, 'inputs modified'); ensure(rk == k and len(x) == n, 'rank %r, it is %d' % (rk, k))
    pin = np.linalg.pinv(A_, rcond=1e-10) if k else np.zeros((n, m)); want = pin @ b; e = 1e-11*(1 + np.linalg.norm(pin))*(1 + sc)*(1 + np.linalg.norm(want)); closes(x, want.tolist(), 0, e, 'minimum norm solution')
    closes(s, np.linalg.svd(A_)[1].tolist(), 0, 1e-13*sc*10, 'singular values')
    full = float(np.sum((A_ @ want - b)**2))
    if m > n and k == n: close(res, full, 1e-9, 1e-12*(1 + sc), 'sum of squared residuals')
    elif k: ensure(res == 0, 'residuals where there are none')
    else: close(res, full, 1e-12, what='residual of a zero matrix')
    Z = fn.null_space(A, rc); ensure(len(Z) == n and all(len(q) == n - k for q in Z), 'shape of the null space: %r' % (Z,)); Z_ = np.array(Z).reshape(n, n - k)
    if n - k: ensure(np.abs(A_ @ Z_).max() < 1e-12*(1 + sc), 'not in the null space'); ensure(np.abs(Z_.T @ Z_ - np.eye(n - k)).max() < 1e-12, 'not orthonormal')
    if k == min(m, n):
        d = fn.gelsd(A, b); closes(d[0], want.tolist(), 0, e, 'default cutoff'); ensure(d[2] == k, 'rank at the default cutoff')
    if m*n < 2: ctx.trivial()
    g0 = fn.gelsd([[] for _ in b], b); ensure(len(g0[0]) == 0 and g0[2] == 0 and len(g0[3]) == 0, 'no unknowns: %r', g0)
    ensure(fn.gelsd([], []) == ([], 0.0, 0, []) and fn.null_space([]) == [], 'nothing'); raises(ValueError, fn.gelsd, A, b + [1.], what='misshaped right hand side')
