"""Recorded valid calls of every public function (props/data/corpus.json, recorded once from the test
suite and the docstring examples) and documented units (props/data/docunits.json), as seeds for the
cross-cutting checks: a case is a recorded call with every continuous argument moved."""
import json, os, math, datetime
_D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props', 'data')
def _load(n): return json.load(open(os.path.join(_D, n)))
CALLS = _load('corpus.json')
UNITS = _load('docunits.json') if os.path.exists(os.path.join(_D, 'docunits.json')) else {}
FIXED = {'style', 'pts', 'poles', 'max_variations', 'phase', 'tol', 'NPS', 'gauge', 'schedule', 'edition', 'coeffs', 'bend_diameters', 'Kd_in', 'pow_x', 'pow_rho', 'pow_mu'}
def decode(v):
    if isinstance(v, dict):
        if 'tuple' in v: return tuple(decode(x) for x in v['tuple'])
        if 'dt' in v:
            t = datetime.datetime(*v['dt'])
            if v.get('tz'):
                import pytz
                t = pytz.utc.localize(t) if v['tz'] in ('UTC',) else pytz.timezone(v['tz']).localize(t)
            return t
    if isinstance(v, list): return [decode(x) for x in v]
    return v
def entry(fn, i):
    L = CALLS[fn]; return {k: decode(v) for k, v in L[i % len(L)].items()}
def movable(fn, k, v):
    u = UNITS.get(fn, {}).get('in', {}).get(k)
    if k in FIXED or u is None or isinstance(v, bool): return False
    return isinstance(v, float) or (isinstance(v, int) and u[1].startswith('float'))
def perturb(fn, e, group, own, size=.25, each=.03):
    """e with each quantity of one unit multiplied by a common factor and each by a small one of its own;
    numbers between 0 and 1 stay there"""
    out = dict(e); us = sorted({UNITS[fn]['in'][k][0] for k in e if k in UNITS.get(fn, {}).get('in', {})})
    for j, k in enumerate(sorted(e)):
        v = e[k]
        if not movable(fn, k, v): continue
        u = UNITS[fn]['in'][k][0]; o = own[j % len(own)]
        if u in ('dimensionless', 'degrees'):
            if u == 'degrees': out[k] = v*(1 + each*o) if not 88 < abs(v) else v
            elif 0 < v < 1: out[k] = v**math.exp(size*o)
            elif v != 1: out[k] = v*math.exp((size if abs(v) > 50 else each)*o)
        elif u == 'K': out[k] = v*(1 + .02*o)
        else: out[k] = v*math.exp(size*group[us.index(u) % len(group)] + each*o)
    return out
