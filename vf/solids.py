"""Reference geometry of vessel heads: the documented solids, integrated numerically (tanh-sinh).
A head of revolution is a list of arcs (x(t), r(t)) from the rim (x=0, r=R) to the tip (x=depth, r=0)."""
import numpy as np
from math import pi, sqrt, sin, cos, asin, atan2
_k = np.arange(-66, 67)*0.0475
_u = np.tanh(.5*pi*np.sinh(_k)); _w = .0475*.5*pi*np.cosh(_k)/np.cosh(.5*pi*np.sinh(_k))**2
def integ(f, a, b):
    if b <= a: return 0.
    c, d = .5*(a + b), .5*(b - a)
    # distances from the ends are formed without cancellation
    t = np.where(_u < 0, a + d*(1 + _u), b - d*(1 - _u))
    v = f(np.clip(t, a, b))
    return float(np.dot(_w, v))*d
class Arc:
    """x = cx + ax*sin(t), r = cr + ar*cos(t), t in [t0, t1]; or a line when line=(x0, r0, x1, r1)"""
    def __init__(s, t0=0., t1=1., cx=0., ax=0., cr=0., ar=0., line=None):
        s.t0, s.t1, s.cx, s.ax, s.cr, s.ar, s.line = t0, t1, cx, ax, cr, ar, line
        if line: s.t0, s.t1 = 0., 1.
    def xr(s, t):
        if s.line: x0, r0, x1, r1 = s.line; return x0 + (x1 - x0)*t, r0 + (r1 - r0)*t
        return s.cx + s.ax*np.sin(t), s.cr + s.ar*np.cos(t)
    def d(s, t):
        if s.line: x0, r0, x1, r1 = s.line; return (x1 - x0) + 0*t, (r1 - r0) + 0*t
        return s.ax*np.cos(t), -s.ar*np.sin(t)
    def t_of_r(s, r):
        if s.line: x0, r0, x1, r1 = s.line; return (r - r0)/(r1 - r0)
        return float(np.arccos(np.clip((r - s.cr)/s.ar, -1, 1)))
    def t_of_x(s, x):
        if s.line: x0, r0, x1, r1 = s.line; return (x - x0)/(x1 - x0)
        return float(np.arcsin(np.clip((x - s.cx)/s.ax, -1, 1)))
def conical(D, a): return [Arc(line=(0., D/2, a, 0.))]
def ellipsoidal(D, a): return [Arc(0., pi/2, 0., a, 0., D/2)]
def spherical(D, a):
    R = D/2; rs = (a*a + R*R)/(2*a); t0 = atan2((rs - a), R)
    return [Arc(t0, pi/2, -(rs - a), rs, 0., rs)]
def torispherical(D, f, k):
    al = asin((1 - 2*k)/(2*(f - k)))                 # half-angle of the dish
    knuckle = Arc(0., pi/2 - al, 0., k*D, D/2 - k*D, k*D)
    a2 = k*D*cos(al); a1 = f*D*(1 - cos(al))
    return [knuckle, Arc(pi/2 - al, pi/2, a1 + a2 - f*D, f*D, 0., f*D)]
def depth(arcs): return float(arcs[-1].xr(arcs[-1].t1)[0])
def _cuts(a, vals, of):
    ts = sorted({a.t0, a.t1, *(min(max(of(v), a.t0), a.t1) for v in vals)})
    return zip(ts, ts[1:])
def seg_area(r, y):
    """area of the part of a disc of radius r below level y (measured from its centre)"""
    c = np.clip(np.divide(y, r, out=np.where(np.asarray(r) >= 0, np.sign(y)*np.ones_like(r), 0), where=r > 0), -1, 1)
    return r*r*(pi - np.arccos(c) + c*np.sqrt((1 - c)*(1 + c)))
def seg_arc(r, y):
    c = np.clip(np.divide(y, r, out=np.where(np.asarray(r) >= 0, np.sign(y)*np.ones_like(r), 0), where=r > 0), -1, 1)
    return 2*r*(pi - np.arccos(c))
def V_horiz(arcs, D, h):
    """volume of liquid in one head of a horizontal vessel filled to h"""
    y = min(max(h, 0.), D) - D/2; v = 0.
    for a in arcs:
        for p, q in _cuts(a, [abs(y)], a.t_of_r):
            v += integ(lambda t: seg_area(a.xr(t)[1], y)*a.d(t)[0], p, q)
    return v
def S_horiz(arcs, D, h):
    y = min(max(h, 0.), D) - D/2; v = 0.
    for a in arcs:
        for p, q in _cuts(a, [abs(y)], a.t_of_r):
            v += integ(lambda t: seg_arc(a.xr(t)[1], y)*np.hypot(*a.d(t)), p, q)
    return v
def _upto(arcs, x, g):
    """integral of g over the part of the head between the tip and distance x from the rim plane"""
    v = 0.
    for a in arcs:
        for p, q in _cuts(a, [x], a.t_of_x):
            if a.xr((p + q)/2)[0] > x: v += integ(lambda t: g(a, t), p, q)
    return v
def V_vert(arcs, D, h):
    """volume above the tip of a bottom head, filled to h (more than the depth: cylinder above)"""
    d = depth(arcs)
    if h <= 0: return 0.
    v = _upto(arcs, d - min(h, d), lambda a, t: pi*a.xr(t)[1]**2*a.d(t)[0])
    return v + pi/4*D*D*max(h - d, 0.)
def S_vert(arcs, D, h):
    d = depth(arcs)
    if h <= 0: return 0.
    return _upto(arcs, d - min(h, d), lambda a, t: 2*pi*a.xr(t)[1]*np.hypot(*a.d(t)))
def V_concave(arcs, D, h):
    """liquid around a head bulging into the vessel from the bottom"""
    d = depth(arcs)
    if h <= 0: return 0.
    full = V_vert(arcs, D, d)
    return pi/4*D*D*h - (full - V_vert(arcs, D, d - min(h, d)))
# guppy: w(x, y) = a/(2R) [(R + x) - y^2/(R - x)], x the height above the centre, w the horizontal extent
def V_guppy(D, a, h):
    R = D/2; y = min(max(h, 0.), D) - R
    return integ(lambda x: a/(2*R)*(4/3.)*np.sqrt(np.maximum((R - x)*(R + x), 0))*(R + x), -R, y)
def S_guppy(D, a, h):
    R = D/2; Y = min(max(h, 0.), D) - R
    def inner(x):
        out = np.empty_like(x)
        for i, xi in enumerate(x):
            m = sqrt(max((R - xi)*(R + xi), 0.)); q = R - xi
            if m == 0 or q <= 0: out[i] = 0.; continue
            def g(y):
                t1 = (y/q)**2
                return np.sqrt(1 + (a/(2*R))**2*(1 - t1)**2 + (a/R)**2*t1)
            out[i] = 2*integ(g, 0., m)
        return out
    return integ(inner, -R, Y)
