"""Reference evaluation of digitised curves from the copies in props/data."""
import json, os
import numpy as np
from scipy.interpolate import splev, bisplev
_D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props', 'data')
def _un(x):
    if isinstance(x, dict) and '__dict__' in x: return {(_un(k) if not isinstance(k, list) else tuple(k)): _un(v) for k, v in x['__dict__']}
    if isinstance(x, list): return [_un(i) for i in x]
    return x
class T(dict):
    __getattr__ = dict.__getitem__
def load(name): return T({k: _un(v) for k, v in json.load(open(os.path.join(_D, name + '.json'))).items()})
def lin(x, xs, ys, extrapolate=False):
    """piecewise linear, held constant outside unless extrapolate"""
    if x <= xs[0] or x >= xs[-1]:
        if not extrapolate: return ys[0] if x <= xs[0] else ys[-1]
    i = 0
    while i < len(xs) - 2 and x > xs[i + 1]: i += 1
    return ys[i] + (x - xs[i])*(ys[i + 1] - ys[i])/(xs[i + 1] - xs[i])
def bilin(x, y, xs, ys, z):
    """bilinear table z[iy][ix], held constant outside"""
    rows = [lin(x, xs, row) for row in z]
    return lin(y, ys, rows)
def poly(c, x):
    r = 0.
    for k in c: r = r*x + k
    return r
def sp1(x, tck): return float(splev(x, (np.array(tck[0]), np.array(tck[1]), int(tck[2]))))
def sp2(x, y, tck): return float(bisplev(x, y, (np.array(tck[0]), np.array(tck[1]), np.array(tck[2]), int(tck[3]), int(tck[4]))))
