"""C42: double-double arithmetic against exact rational arithmetic and high-precision functions."""
from fractions import Fraction as Fr
from math import ldexp
import mpmath
from mpmath import mpf, mpc
from vf.core import *
from hypothesis import strategies as st
from fluids.numerics import doubledouble as D

P = Prop('C42', rule='a case is non-trivial when both operands carry a low-order part, so that plain double arithmetic would not do',
         level='Operands up to 10^100 in magnitude, with cancellation; exact rational arithmetic (or 400-bit functions) as the oracle, errors bounded by 64 units of 2^-106 relative to the result, or to the operands where terms of a sum cancel.',
         assumptions=['operands are normalised pairs, intermediates neither overflow nor underflow'])
U = 2.0**-106
mpmath.mp.prec = 400

def pair(hi, k, f):
    """a normalised pair near hi; k selects special low-order parts"""
    if hi == 0.0: return (0.0, 0.0)
    from math import ulp
    lo = {0: 0.0, 1: 0.5*ulp(hi)*f, 2: 0.5*ulp(hi)*f*f*f, 3: hi*2.0**-80*f}[k]
    if hi + lo != hi: lo = 0.25*lo
    if hi + lo != hi: lo = 0.0
    return (hi, lo)

def dd(lo=-1e60, hi=1e60, pos=False):
    mag = st.one_of(uf(-5, 5) if not pos else uf(1e-3, 5), lf(1e-60, 1e60) if pos else lf(1e-60, 1e60) | lf(1e-60, 1e60).map(lambda x: -x),
                    st.sampled_from([1.0, 2.0, 0.5, 3.0, 1e16, 1e-16, 8.0, 27.0] + ([] if pos else [-1.0, -2.0, -8.0, 0.0])))
    return st.tuples(mag, ints(0, 3), uf(-1, 1)).map(lambda t: pair(*t))
DDP = dd(pos=True)
DDA = dd()

def ex(p): return Fr(p[0]) + Fr(p[1])
def m(p):
    mpmath.mp.prec = 400 # other importers of mpmath may have changed it
    return mpf(p[0]) + mpf(p[1])

def check(got, want, scale, what, k=64):
    """want exact (Fraction or mpf), error relative to scale"""
    r, e = got
    for v in got:
        if not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')): fail('%s: got %r' % (what, got))
    g = (Fr(r) + Fr(e)) if isinstance(want, Fr) else (mpf(r) + mpf(e))
    err = abs(g - want)
    if err > k*U*abs(scale):
        fail('%s: got %r, off by %.3g of the scale (allowed %.3g)' % (what, got, float(err/abs(scale)) if scale else float(err), k*U))
    ensure(r + e == r, '%s: result %r is not normalised' % (what, got))

def trivial(ctx, *ps):
    if not all(p[1] != 0.0 for p in ps): ctx.trivial()

@P.sub(rec(a=DDA, b=DDA, near=opt(uf(-1e-3, 1e-3)), sgn=pick(-1.0, 1.0), ex=ints(5, 40)), n=1200)
def arithmetic(ctx, a, b, near, sgn, ex):
    if near is not None: # operands which nearly cancel
        h = sgn*a[0]*(1.0 + near*10.0**-ex); b = pair(h, 1, near*1000)
    trivial(ctx, a, b); x, y = globals()['ex'](a), globals()['ex'](b)
    check(D.add_dd(*a, *b), x + y, abs(x) + abs(y), 'add', 8)
    check(D.mul_dd(*a, *b), x*y, x*y, 'mul', 32)
    r, e = D.mul_noerrors_dd(a[0], b[0])
    ensure(Fr(r) + Fr(e) == Fr(a[0])*Fr(b[0]), 'mul_noerrors_dd(%r, %r) = %r is not exact' % (a[0], b[0], (r, e)))
    if y: check(D.div_dd(*a, *b), x/y, x/y, 'div', 32)
    check(D.square_dd(*a), x*x, x*x, 'square', 32); check(D.cube_dd(*a), x*x*x, x*x*x, 'cube', 32)
    s = D.add_dd(*b, *a); ensure(s == D.add_dd(*a, *b), 'addition is not commutative'); ensure(D.mul_dd(*b, *a) == D.mul_dd(*a, *b), 'multiplication is not commutative')
    # identities
    ensure(D.add_dd(*a, 0.0, 0.0) == a and D.mul_dd(*a, 1.0, 0.0) == a and D.div_dd(*a, 1.0, 0.0) == a, 'adding 0, multiplying or dividing by 1 changes %r' % (a,))
    if x: ensure(D.div_dd(*a, *a) == (1.0, 0.0) or abs(float(globals()['ex'](D.div_dd(*a, *a)) - 1)) < 32*U, 'x/x is not 1')

@P.sub(rec(a=DDA, b=DDA, how=pick('random', 'same', 'same high part', 'negative'), k=ints(0, 3), f=uf(-1, 1)), n=800)
def ordering(ctx, a, b, how, k, f):
    b = dict(random=b, negative=(-a[0], -a[1]), same=a).get(how, None) or pair(a[0], k, f)
    trivial(ctx, a, b); x, y = ex(a), ex(b)
    for g, w in (('eq', x == y), ('neq', x != y), ('lt', x < y), ('le', x <= y), ('gt', x > y), ('ge', x >= y)):
        got = getattr(D, g + '_dd')(*a, *b)
        ensure(got == w, '%s_dd(%r, %r) = %r' % (g, a, b, got))

@P.sub(rec(a=DDP, b=dd()), n=800)
def roots(ctx, a, b):
    trivial(ctx, a, b); x, y = m(a), m(b)
    check(D.sqrt_dd(*a), mpmath.sqrt(x), mpmath.sqrt(x), 'sqrt')
    for f in (D.cbrt_dd, D.cbrt_explicit_dd):
        check(f(*a), mpmath.cbrt(x), mpmath.cbrt(x), f.__name__)
        w = mpmath.cbrt(abs(y))*mpmath.sign(y)
        check(f(*b), w, w, f.__name__)
    ensure(D.sqrt_dd(0.0, 0.0) == (0.0, 0.0), 'sqrt(0)')
    check(D.square_dd(*D.sqrt_dd(*a)), x, x, 'square of the square root', 200); check(D.cube_dd(*D.cbrt_dd(*a)), x, x, 'cube of the cube root', 300)

@P.sub(rec(a=dd(), n=ints(-40, 40), lim=pick(False, True)), n=800)
def intpow(ctx, a, n, lim):
    if a[0] == 0.0 and n <= 0: raise SkipCase('zero base')
    if a[0] and abs(n*mpmath.log10(abs(a[0]))) > 250: n = int(250/mpmath.log10(abs(a[0])))*(1 if n > 0 else -1)
    trivial(ctx, a); x = ex(a)**n
    check(D.intpow_dd(*a, n), x, x, 'intpow %d' % n, 64*(1 + abs(n)))
    for e in (n, float(n)): check(D.pow_dd(*a, e, 0.0), x, x, 'pow %r' % e, 64*(1 + abs(n)))

E_ = st.tuples(uf(-600, 600) | uf(-3, 3) | lf(1e-30, 1) | lf(1e-30, 1).map(lambda x: -x) | ints(-20, 20).map(float) | ints(-20, 20).map(lambda n: n + 0.5), ints(0, 3), uf(-1, 1)).map(lambda t: pair(*t))
@P.sub(rec(a=E_, b=DDP, near=opt(uf(-1e-3, 1e-3)), ne=st.tuples(uf(-4, 4) | pick(0.5, -0.5, 2.5, 1.0, 2.0, 3.0), ints(0, 3), uf(-1, 1)).map(lambda t: pair(*t))), n=800)
def transcendental(ctx, a, b, near, ne):
    trivial(ctx, a, b)
    x = mpmath.exp(m(a)); check(D.exp_dd(*a), x, x, 'exp', 64 + 8*abs(a[0]))
    if near is not None: b = pair(1.0 + near, 1, near*900)
    w = mpmath.log(m(b)); check(D.log_dd(*b), w, max(1, abs(w)), 'log', 256)
    if abs(ne[0]*float(w)) < 500:
        x = m(b)**m(ne); check(D.pow_dd(*b, *ne), x, x, 'pow', 512*(1 + abs(ne[0])*max(1.0, abs(float(w)))))

def checkc(got, want, scale, what, k=64):
    g = mpc(mpf(got[0]) + mpf(got[1]), mpf(got[2]) + mpf(got[3]))
    for v in got:
        if not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')): fail('%s: got %r' % (what, got))
    if abs(g - want) > k*U*scale: fail('%s: got %r, wanted %s, off by %.3g of the scale (allowed %.3g)' % (what, got, mpmath.nstr(want, 20), float(abs(g - want)/scale), k*U))
    for i in (0, 2): ensure(got[i] + got[i + 1] == got[i], '%s: result %r is not normalised' % (what, got))

C_ = st.tuples(st.tuples(uf(-5, 5) | pick(0.0, 1.0, -1.0), ints(0, 3), uf(-1, 1)).map(lambda t: pair(*t)), st.tuples(uf(-5, 5) | pick(0.0, 1.0, -1.0) | lf(1e-25, 1) | lf(1e-25, 1).map(lambda x: -x), ints(0, 3), uf(-1, 1)).map(lambda t: pair(*t)))
@P.sub(rec(a=C_, b=C_, s=pick(1.0, 1.0, 2.0**40, 2.0**-40), t=pick(1.0, 2.0**30)), n=1000)
def complex_arithmetic(ctx, a, b, s, t):
    a = [tuple(s*v for v in p) for p in a]; b = [tuple(t*v for v in p) for p in b]
    trivial(ctx, *a, *b); a4 = a[0] + a[1]; b4 = b[0] + b[1]
    x, y = mpc(m(a[0]), m(a[1])), mpc(m(b[0]), m(b[1]))
    if (x and abs(x) < 1e-60) or (y and abs(y) < 1e-60): raise SkipCase('underflow of squares')
    checkc(D.add_imag_dd(*a4, *b4), x + y, abs(x) + abs(y), 'add_imag')
    checkc(D.mul_imag_dd(*a4, *b4), x*y, abs(x)*abs(y), 'mul_imag')
    d, e = complex(a[0][0], a[1][0]), complex(b[0][0], b[1][0])
    checkc(D.mul_imag_noerrors_dd(d.real, d.imag, e.real, e.imag), mpc(d)*mpc(e), abs(mpc(d))*abs(mpc(e)), 'mul_imag_noerrors')
    if y:
        checkc(D.div_imag_dd(*a4, *b4), x/y, abs(x/y), 'div_imag')
        checkc(D.imag_inv_dd(*b4), 1/y, abs(1/y), 'imag_inv')

@P.sub(rec(a=C_, s=pick(1.0, 1.0, 2.0**40, 2.0**-40)), n=1000)
def complex_roots(ctx, a, s):
    a = [tuple(s*v for v in p) for p in a]
    trivial(ctx, *a); a4 = a[0] + a[1]; x = mpc(m(a[0]), m(a[1]))
    if x and abs(x) < 1e-60: raise SkipCase('underflow of squares')
    if not x:
        ensure(all(v == 0.0 for v in D.sqrt_imag_dd(*a4)), 'sqrt of zero'); ensure(all(v == 0.0 for v in D.cbrt_imag_dd(*a4)), 'cbrt of zero'); return
    w = mpmath.sqrt(x); checkc(D.sqrt_imag_dd(*a4), w, abs(w), 'sqrt_imag of %s' % mpmath.nstr(x, 20))
    w = mpmath.exp(mpmath.log(x)/3); checkc(D.cbrt_imag_dd(*a4), w, abs(w), 'cbrt_imag of %s' % mpmath.nstr(x, 20), 4096)
