"""C39: polynomial family evaluators against jets (truncated Taylor series) in 40-digit arithmetic."""
from math import *
from functools import lru_cache
import mpmath
from mpmath import mpf
import fluids.numerics as fn
from vf.core import *

P = Prop('C39', rule='0 to 14 coefficients, zeros among them, all offsets and scales; non-trivial: at least 3 coefficients.', assumptions=[])
mp = mpmath.mp.clone(); mp.dps = 40; M = mp.mpf
ORD = 4
# jets: lists of Taylor coefficients f^(k)/k!
def jmul(a, b): return [mp.fsum(a[i]*b[k - i] for i in range(k + 1)) for k in range(ORD + 1)]
def jadd(a, b): return [x + y for x, y in zip(a, b)]
def jc(c): return [M(c)] + [M(0)]*ORD
def jexp(a):
    e = [mp.exp(a[0])]
    for k in range(1, ORD + 1): e.append(mp.fsum(i*a[i]*e[k - i] for i in range(1, k + 1))/k)
    return e
def jlog(a):
    l = [mp.log(a[0])]
    for k in range(1, ORD + 1): l.append((a[k] - mp.fsum(i*l[i]*a[k - i] for i in range(1, k))/k)/a[0])
    return l
def jpoly(cs, u):
    t = jc(0)
    for c in cs: t = jadd(jmul(t, u), jc(c))
    return t
def jcheb(cs, u):
    t, prev, cur = jc(0), None, jc(1)
    for c in cs:
        t = jadd(t, jmul(jc(c), cur))
        prev, cur = cur, (u if prev is None else jadd(jmul(jc(2), jmul(u, cur)), [-v for v in prev]))
    return t
def ders(j): return [j[k]*mp.factorial(k) for k in range(ORD + 1)]
@lru_cache(None)
def chebpow(n):      # majorant: |T_n| in powers of |x|
    a, b = [1], [0, 1]
    if n == 0: return (1,)
    for _ in range(n - 1): a, b = b, [x + y for x, y in zip([0] + [2*v for v in b], a + [0]*(len(b) + 1 - len(a)))]
    return tuple(b)
def majpoly(cs):     # coefficients of a majorant including one relative perturbation of the argument per power
    n = len(cs); return [abs(c)*(2*(n - 1 - i) + n) for i, c in enumerate(cs)]
def majcheb(cs):
    p = [0.]*max(len(cs), 1)
    for n, c in enumerate(cs):
        for i, v in enumerate(chebpow(n)): p[i] += abs(c)*v*(2*n + 4)
    return p[::-1]
def scaled(x, off, scl):  # jet of off + scl x and its majorant
    return [M(off) + M(scl)*M(x), M(scl)] + [M(0)]*(ORD - 1), [abs(M(off)) + abs(M(scl)*M(x)), abs(M(scl))] + [M(0)]*(ORD - 1)
def check(got, want, maj, what, amp=1.):
    if not isinstance(got, tuple): got = (got,)
    w = ders(want); m = ders(maj)
    for k, g in enumerate(got):
        e = 4e-15*amp*float(m[k]) + 1e-300
        d = abs(M(g) - w[k])
        if not d <= e: fail('%s%s: got %r, exact %s, error %.3g over %.3g' % (what, '' if k == 0 else ", derivative %d" % k, g, mp.nstr(w[k], 20), float(d), e))
def wrapexp(want, maj):
    v = jexp(want); z = [M(0)] + list(maj[1:]); e = jexp(z)
    return v, [v[0]*(1 + 3*maj[0])*q*(k + 1) for k, q in enumerate(e)]
C = pick([0., 1., -1.]) | uf(-10, 10) | lf(1e-8, 1e8) | lf(1e-8, 1e8).map(lambda v: -v)
CO = flist(C, 0, 14)
def many(fam): return {k: v for k, v in vars(fn).items()}
PLAIN = ['horner', 'horner_and_der', 'horner_and_der2', 'horner_and_der3', 'horner_and_der4']
@P.sub(rec(cs=CO, x=pick([0., 1., -1.]) | uf(-3, 3) | lf(1e-3, 1e3)), n=800, thorough=10000)
def plain(ctx, cs, x):
    u, a = scaled(x, 0., 1.); w, m = jpoly(cs, u), jpoly(majpoly(cs), a); keep = list(cs)
    for f in PLAIN: check(getattr(fn, f)(cs, x), w, m, f)
    check(fn.horner_backwards(x, cs), w, m, 'horner_backwards')
    ensure(cs == keep, 'coefficients modified'); check(fn.horner(tuple(cs), x), w, m, 'horner of a tuple')
    if len(cs) < 3: ctx.trivial()
    if abs(w[0]) > 500 or m[0] > 1e4: return
    w, m = wrapexp(w, m); ctx.label('exponential')
    for f in ('exp_horner_backwards', 'exp_horner_backwards_and_der', 'exp_horner_backwards_and_der2', 'exp_horner_backwards_and_der3'): check(getattr(fn, f)(x, cs), w, m, f)
@P.sub(rec(cs=CO, x=uf(-3, 3) | lf(1e-3, 1e3), off=uf(-3, 3), scl=uf(-3, 3) | lf(1e-3, 10), dom=uf(-10, 10), width=lf(1e-2, 1e3), lc=C), n=800, thorough=10000)
def stable(ctx, cs, x, off, scl, dom, width, lc):
    u, a = scaled(x, off, scl); w, m = jpoly(cs, u), jpoly(majpoly(cs), a)
    for f in ('horner_stable', 'horner_stable_and_der', 'horner_stable_and_der2', 'horner_stable_and_der3', 'horner_stable_and_der4'): check(getattr(fn, f)(x, cs, off, scl), w, m, f)
    if len(cs) < 3: ctx.trivial()
    if abs(w[0]) < 500 and m[0] < 1e4:
        w2, m2 = wrapexp(w, m); ctx.label('exponential')
        for f in ('exp_horner_stable', 'exp_horner_stable_and_der', 'exp_horner_stable_and_der2', 'exp_horner_stable_and_der3'): check(getattr(fn, f)(x, cs, off, scl), w2, m2, f)
    elif w[0] > 720: close(fn.exp_horner_stable(x, cs, off, scl), 1.7976931348622732e308, 1e-10, what='truncated exponential')
    elif w[0] < -760: close(fn.exp_horner_stable(x, cs, off, scl), 0, 0, 0, 'exponential')
    lo, hi = dom, dom + width; o, s = fn.polynomial_offset_scale(lo, hi)
    for p, q in ((lo, -1.), (hi, 1.), (.5*(lo + hi), 0.)): close(o + s*p, q, 1e-13, 1e-14*(abs(o) + abs(s*p)), 'offset and scale')
    t = lo + width*(.5 + off/6); u, a = scaled(t, -(M(lo) + M(hi))/(M(hi) - M(lo)), 2/(M(hi) - M(lo))); a[0] *= 2; w, m = jpoly(cs, u), jpoly(majpoly(cs), a)
    amp = 1 + (abs(lo) + abs(hi))/(hi - lo)
    check(fn.horner_domain(t, cs, lo, hi), w, m, 'horner_domain', amp); check(fn.horner_stable(t, cs, o, s), w, m, 'horner_stable on a domain', amp)
    x = abs(x) + 1e-3; u, a = scaled(x, 0., 1.); l = mp.log(M(x))*M(lc); w, m = jpoly(cs, u), jpoly(majpoly(cs), a); w[0] += l; m[0] += 3*abs(l); check(fn.horner_log(cs, lc, x), w, m, 'horner_log')
    u, a = scaled(x, off, scl); w, m = jpoly(cs, u), jpoly(majpoly(cs), a); w[0] += l; m[0] += 3*abs(l); check(fn.horner_stable_log(x, cs, off, scl, lc), w, m, 'horner_stable_log')
LNT = dict(Tc=lf(.1, 1e4), tau=uf(.01, .99) | lf(1e-6, .5), above=pick([None]*6 + [1., 1.3]))
def lntau(T, Tc):
    t = [1 - M(T)/M(Tc), -1/M(Tc)] + [M(0)]*(ORD - 1); return jlog(t), [abs(v) for v in jlog(t)], 1/float(t[0])
@P.sub(rec(cs=CO, off=uf(-3, 3), scl=uf(-3, 3), **LNT), n=600, thorough=8000)
def log_reduced(ctx, cs, off, scl, Tc, tau, above):
    T = Tc*(1 - tau) if above is None else Tc*above
    groups = [('horner_backwards_ln_tau', 3, ()), ('exp_horner_backwards_ln_tau', 2, ()), ('horner_stable_ln_tau', 3, (off, scl)), ('exp_horner_stable_ln_tau', 2, (off, scl))]
    if above is not None or T >= Tc:
        for g, n, ex in groups:
            for k in range(n + 1):
                got = getattr(fn, g + ('' if k == 0 else '_and_der' + ('' if k == 1 else str(k))))(T, Tc, cs, *ex)
                ensure((got == 0 if k == 0 else got == (0.,)*(k + 1)), '%s above Tc: %r' % (g, got))
        return
    u, a, amp = lntau(T, Tc)
    if len(cs) < 3: ctx.trivial()
    for g, n, ex in groups:
        uu, aa = (u, a) if not ex else ([M(off) + M(scl)*u[0]] + [M(scl)*v for v in u[1:]], [abs(M(off)) + abs(M(scl))*a[0]] + [abs(M(scl))*v for v in a[1:]])
        aa = list(aa); aa[0] += 1; w, m = jpoly(cs, uu), jpoly(majpoly(cs), aa)
        if g.startswith('exp'):
            if abs(w[0]) > 500 or m[0] > 1e4: continue
            w, m = wrapexp(w, m); ctx.label('exponential')
        for k in range(n + 1): f = g + ('' if k == 0 else '_and_der' + ('' if k == 1 else str(k))); check(getattr(fn, f)(T, Tc, cs, *ex), w, m, f, 3*amp)
def dercoefs(cs, scl, n, how):
    out, c = [], list(cs)
    for k in range(1, n + 1): c = fn.chebder(c, 1, scl) if how else fn.chebder(list(cs), k, scl); out.append(c)
    return out
@P.sub(rec(cs=flist(uf(-10, 10) | pick([0., 1.]), 1, 13), x=uf(-2, 2) | pick([0., 1., -1.]), off=uf(-.5, .5), scl=uf(-.5, .5) | lf(1e-2, 1.), how=pick([True, False]), **LNT), n=700, thorough=8000)
def chebyshev(ctx, cs, x, off, scl, how, Tc, tau, above):
    keep = list(cs); D = dercoefs(cs, scl, 3, how); ensure(cs == keep, 'coefficients modified')
    for k, d in enumerate(D): ensure(len(d) == max(len(cs) - k - 1, 0) or len(d) == 1, 'number of derivative coefficients')
    u, a = scaled(x, off, scl); mc = majcheb(cs); w, m = jcheb(cs, u), jpoly(mc, a)
    check(fn.chebval(x, cs, off, scl), w, m, 'chebval')
    check((fn.chebval(x, cs, off, scl),) + tuple(fn.chebval(x, d, off, scl) for d in D), w, [4*v for v in m], 'chebval of chebder')
    if len(cs) < 3: ctx.trivial()
    if abs(w[0]) < 300:
        w2, m2 = wrapexp(w, [4*v for v in m]); ctx.label('exponential')
        for k in range(4): check(getattr(fn, 'exp_cheb' + ('' if k == 0 else '_and_der' + ('' if k == 1 else str(k))))(x, cs, *D[:k], off, scl), w2, m2, 'exp_cheb with %d derivatives' % k)
    T = Tc*(1 - tau) if above is None else Tc*above
    for g, n in (('chebval_ln_tau', 3), ('exp_cheb_ln_tau', 2)):
        if T >= Tc:
            for k in range(n + 1):
                got = getattr(fn, g + ('' if k == 0 else '_and_der' + ('' if k == 1 else str(k))))(T, Tc, cs, *D[:k], off, scl); ensure((got == 0 if k == 0 else got == (0.,)*(k + 1)), '%s above Tc: %r' % (g, got))
            continue
        u, a, amp = lntau(T, Tc); uu, aa = [M(off) + M(scl)*u[0]] + [M(scl)*v for v in u[1:]], [abs(M(off)) + abs(M(scl))*a[0] + 1] + [abs(M(scl))*v for v in a[1:]]
        w, m = jcheb(cs, uu), [4*v for v in jpoly(mc, aa)]
        if g.startswith('exp'):
            if abs(w[0]) > 300: continue
            w, m = wrapexp(w, m)
        for k in range(n + 1): f = g + ('' if k == 0 else '_and_der' + ('' if k == 1 else str(k))); check(getattr(fn, f)(T, Tc, cs, *D[:k], off, scl), w, m, f, 3*amp)
@P.sub(rec(cs=flist(uf(-10, 10) | pick([0.]), 1, 12), x=uf(-1, 1), m=pick([0, 1, 1, 2, 3]), lbnd=pick([0, 0, 1, -1., .3]), scl=pick([1, 1., 2., -.5, 10.])), n=600, thorough=8000)
def chebyshev_integrals(ctx, cs, x, m, lbnd, scl):
    """m integrations from lbnd, each scaled: the m-th derivative of the result is scl^m times the series, and the lower derivatives vanish at lbnd."""
    keep = list(cs); I = fn.chebint(cs, m, lbnd, scl); ensure(cs == keep, 'coefficients modified')
    maj = jpoly(majcheb(cs), [M(1), M(1)] + [M(0)]*(ORD - 1)); s = float(maj[0])*max(1, abs(scl))**m*4
    j = ders(jcheb(I, [M(x), M(1)] + [M(0)]*(ORD - 1))); close(float(j[m]), float(jcheb(cs, [M(x), M(1)] + [M(0)]*(ORD - 1))[0])*scl**m, 1e-13, 4e-15*s*len(I)**m, 'derivative of the integral')
    l = ders(jcheb(I, [M(lbnd), M(1)] + [M(0)]*(ORD - 1)))
    for k in range(m): close(float(l[k]), 0, 0, 1e-14*s*len(I)**k, 'derivative %d of the integral at its lower bound' % k)
    if any(cs): ensure(len(I) == len(cs) + m, 'number of coefficients')
    if len(cs) < 3 or m == 0: ctx.trivial()
    raises(ValueError, fn.chebint, cs, -1, what='negative order')
@P.sub(rec(cs=flist(uf(-10, 10) | pick([0.]), 0, 10), lo=uf(-5, 20), width=lf(.3, 30), t=uf(0, 1), t2=uf(0, 1), v=pick(list(range(-3, 4)))), n=700, thorough=8000)
def conversions(ctx, cs, lo, width, t, t2, v):
    hi = lo + width; x, y = lo + width*t, lo + width*t2; keep = list(cs)
    o, s = -(M(lo) + M(hi))/(M(hi) - M(lo)), 2/(M(hi) - M(lo)); J = lambda c, q: jpoly(c, [o + s*M(q), s] + [M(0)]*(ORD - 1)); K = lambda c, q: jpoly(c, [M(q), M(1)] + [M(0)]*(ORD - 1))
    amp = float(jpoly(majpoly(cs), [abs(o) + abs(s)*max(abs(lo), abs(hi)), abs(s)] + [M(0)]*(ORD - 1))[0])*8 + 1e-300; n = len(cs)
    u = fn.stable_poly_to_unstable(cs, lo, hi); close(float(K(u, x)[0]), float(J(cs, x)[0]), 1e-13, 1e-15*amp, 'stable_poly_to_unstable')
    ensure(u is not cs or n == 0, 'the list itself is returned'); ensure(not u or len(u) <= n, 'number of coefficients')
    same = fn.stable_poly_to_unstable(cs, lo, lo); close(float(K(same, x)[0]), float(K(cs, x)[0]), 1e-13, 1e-15*float(jpoly(majpoly(cs), [abs(M(x)), M(1)] + [M(0)]*(ORD - 1))[0]), 'no transformation')
    I = fn.polyint_stable(cs, lo, hi); close(float(J(I, x)[1]), float(J(cs, x)[0]), 1e-12, 1e-15*amp*10, 'derivative of the stable integral'); ensure(len(I) == n + 1, 'integral coefficients')
    mj = float(jpoly(majpoly(cs), [max(abs(M(lo)), abs(M(hi))), M(1)] + [M(0)]*(ORD - 1))[0])*8 + 1e-300
    I = fn.polyint(cs); close(float(K(I, x)[1]), float(K(cs, x)[0]), 1e-13, 1e-15*mj, 'derivative of the integral'); ensure(len(I) == n + 1 and I[-1] == 0, 'integral coefficients')
    if n:
        p, l = fn.polyint_over_x(cs); q = x if abs(x) > .1 else 1.; close(float(K(p, q)[1] + M(l)/M(q)), float(K(cs, q)[0]/M(q)), 1e-12, 1e-15*max(mj, float(jpoly(majpoly(cs), [M(1), M(1)] + [M(0)]*(ORD - 1))[0])*8)/abs(q), 'derivative of the integral over x')
        q = x if abs(x) > .1 else lo + width; 
        if abs(q) > .1: p, l = fn.polyint_over_x_stable(cs, lo, hi); close(float(K(p, q)[1] + M(l)/M(q)), float(J(cs, q)[0]/M(q)), 1e-11, 1e-15*amp*n/abs(q), 'derivative of the stable integral over x')
        asc = cs[::-1]; Q = fn.poly_convert(asc, lo, hi); z = (M(x) - (M(lo) + M(hi))/2)/((M(hi) - M(lo))/2)
        close(float(mp.fsum(M(c)*z**i for i, c in enumerate(Q))), float(mp.fsum(M(c)*M(x)**i for i, c in enumerate(asc))), 1e-12, 1e-15*mj*2**0*10*float(jpoly(majpoly(cs), [2*max(abs(M(lo)), abs(M(hi))) + M(width), M(1)] + [M(0)]*(ORD - 1))[0]/max(jpoly(majpoly(cs), [max(abs(M(lo)), abs(M(hi))), M(1)] + [M(0)]*(ORD - 1))[0], M(1e-200))), 'poly_convert')
        for m in range(0, 4):
            d = fn.polyder(asc, m); want = ders(K(cs, x))[m]; close(float(mp.fsum(M(c)*M(x)**i for i, c in enumerate(d))), float(want), 1e-12, 1e-14*float(ders(jpoly(majpoly(cs), [abs(M(x)), M(1)] + [M(0)]*(ORD - 1)))[m]), 'polyder order %d' % m)
            ensure(len(d) == max(n - m, 0), 'derivative coefficients')
    ensure(cs == keep, 'coefficients modified')
    if n < 3: ctx.trivial()
@P.sub(rec(T=uf(10, 2000), T2=uf(10, 2000), cs=flist(uf(-2, 2), 1, 5), lo=uf(100, 500), width=uf(10, 700), s1=uf(-2, 2), s2=uf(-2, 2), v1=uf(-50, 50), v2=uf(-50, 50)), n=500, thorough=6000)
def piecewise_integrals(ctx, T, T2, cs, lo, width, s1, s2, v1, v2):
    """A polynomial between Tmin and Tmax extrapolated linearly: integrals, and integrals over T, between any two temperatures."""
    hi = lo + width; cs = [c/300.**(len(cs) - 1 - i) for i, c in enumerate(cs)]; I = fn.polyint(cs); p, l = fn.polyint_over_x(cs); a = (lo, hi, v1, v2, s1, s2)
    P_, L = lambda c, x: mp.polyval([M(v) for v in c], M(x)), lambda x: mp.log(M(x))
    def F(a, b, over):       # exact integral from a to b
        if a > b: return -F(b, a, over)
        t = M(0)
        def lin(x0, x1, T0, v, s):
            if not over: g = lambda q: (M(v) - M(s)*M(T0))*M(q) + M(s)*M(q)**2/2
            else: g = lambda q: (M(v) - M(s)*M(T0))*L(q) + M(s)*M(q)
            return g(x1) - g(x0)
        if a < lo: t += lin(a, min(lo, b), lo, v1, s1)
        x0, x1 = max(a, lo), min(b, hi)
        if x0 < x1:
            ic = [M(c)/(len(cs) - i) for i, c in enumerate(cs)] + [M(0)]; oc = [M(c)/(len(cs) - 1 - i) for i, c in enumerate(cs[:-1])] + [M(0)]
            t += P_(ic, x1) - P_(ic, x0) if not over else P_(oc, x1) - P_(oc, x0) + M(cs[-1])*(L(x1) - L(x0))
        if b > hi: t += lin(max(a, hi), b, hi, v2, s2)
        return t
    sc = (abs(v1) + abs(v2) + (abs(s1) + abs(s2))*2000 + sum(abs(c)*2000.**(len(cs) - 1 - i) for i, c in enumerate(cs)))*2000
    close(fn.fit_integral_linear_extrapolation(T, T2, I, *a), float(F(T, T2, False)), 1e-11, 1e-14*sc, 'integral')
    close(fn.fit_integral_over_T_linear_extrapolation(T, T2, p, l, *a), float(F(T, T2, True)), 1e-11, 1e-14*sc/100, 'integral over T')
    close(fn.poly_fit_integral_value(T2, I, *a) - fn.poly_fit_integral_value(T, I, *a), float(F(T, T2, False)), 1e-11, 1e-14*sc, 'difference of integral values')
    close(fn.poly_fit_integral_over_T_value(T2, p, l, *a) - fn.poly_fit_integral_over_T_value(T, p, l, *a), float(F(T, T2, True)), 1e-11, 1e-14*sc/100, 'difference of integral values over T')
    q = lambda f: f/300.
    data = [[lo, lo - 50], [s1, s2], [v1, v2], [hi, hi + 50], [s2, s1], [v2, v1], [cs, cs[:1]], [fn.polyder(cs[::-1])[::-1], []], [fn.polyder(cs[::-1], 2)[::-1], []]]
    val, d, d2 = fn.evaluate_linear_fits(data, T), fn.evaluate_linear_fits_d(data, T), fn.evaluate_linear_fits_d2(data, T)
    for i, (l0, h0, sa, va, sb, vb, c) in enumerate(((lo, hi, s1, v1, s2, v2, cs), (lo - 50, hi + 50, s2, v2, s1, v1, cs[:1]))):
        if T < l0: w = [va + sa*(T - l0), sa, 0.]; ctx.label('below')
        elif T > h0: w = [vb + sb*(T - h0), sb, 0.]; ctx.label('above')
        else: w = [float(v) for v in ders(jpoly(c, [M(T), M(1)] + [M(0)]*(ORD - 1)))[:3]]; ctx.label('between')
        for g, x, k in zip((val[i], d[i], d2[i]), w, range(3)): close(g, x, 1e-11, 1e-13*(sum(abs(cc)*T**(len(c) - 1 - j) for j, cc in enumerate(c)) + 1)/T**k*16, 'linear fit, derivative %d' % k)
@P.sub(rec(T=uf(100, 600), tau=uf(.02, .9), a=uf(.5, 2), b=uf(-3, 3), c=uf(-.5, .5)), n=300, thorough=3000)
def fits(ctx, T, tau, a, b, c):
    """Coefficients from a value and derivatives of exp(polynomial of log tau)."""
    Tc = T/(1 - tau); v = fn.exp_horner_backwards_ln_tau_and_der2(T, Tc, [c, a, b]); got = fn.exp_poly_ln_tau_coeffs3(T, Tc, *v); L = abs(log(tau)); closes(got, [c, a, b], 1e-9, 1e-11*(1 + L)**4/tau, 'quadratic in log tau')
    v = fn.exp_horner_backwards_ln_tau_and_der(T, Tc, [a, b]); closes(fn.exp_poly_ln_tau_coeffs2(T, Tc, *v), [a, b], 1e-10, 1e-12*(1 + L)**2/tau, 'linear in log tau')
