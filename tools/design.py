"""Writes the per-property section of DESIGN.md from the check modules, the text below, known_findings.json and seeded/."""
import sys, os, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import vf
T = {
'C01': "Own table of units and conversion factors (independent of pint): the plain SI call is made by the check, the same call through fluids.units with each argument converted to a random compatible unit; magnitudes and dimensions of the results are compared. Wrong dimensions and bare numbers must be refused. Reaches every function and every argument, where the tests touch a few dozen.",
'C02': "Element-by-element evaluation of the scalar function is the oracle for the broadcast call, for arrays, lists, 0-d and size-1 arrays and scalars mixed; shape and exact equality; both raise or neither.",
'C03': "Differential: the interpreted function is the oracle for the compiled one. All 484 functions the installed Numba can compile are compiled in memory (no cache is written) in eight workers and compared on recorded and moved calls; numerics functions with hand-written Numba replacements (bisplev, splev, special functions), ATMOSPHERE_1976 and 296 universal functions (60 in quick) as well. A function that no longer compiles is a violation. 50 s because of compilation.",
'C04': "Metamorphic: rescaling of the base units (metre, kilogram, second, kelvin, mole, ampere) must rescale the result by its documented dimension. No reference values are needed, so every dimensionally homogeneous function is covered; a misplaced exponent or a hard-coded constant with dimensions breaks it.",
'C05': "Definitions written out again from the documentation; alternative argument sets derived from one consistent physical state must agree and insufficient ones raise; identities between the groups (Pe = Re Pr, ...).",
'C06': "Round trips and random walks over the conversion graphs against exact affine maps; forward and backward conversions composed.",
'C07': "The published flow equations (own implementation) produce the state; each unknown is then solved for and must return it. Critical pressures checked by maximising the flow numerically.",
'C08': "Thermodynamic relations: work as the integral of v dP, efficiency definitions inverted, critical flow as the maximum of mass flux, stagnation identities.",
'C09': "Colebrook reference in 50-digit arithmetic (Lambert W), each explicit correlation re-written from its publication, with its stated range and published error band against Colebrook; limits, monotonicity, tables frozen.",
'C10': "The list of methods is compared with the set of methods that actually evaluate; each listed method with the separately exposed correlation; the default with the documented one; unknown names must raise.",
'C11': "Equations re-written from the documentation with their branch limits; Reynolds numbers drawn on the limits and beside them.",
'C12': "Momentum and energy balances: gravitational terms by integration along the pipe, acceleration by difference of momentum flux, two-phase results reduced to the one-phase ones at quality 0 and 1.",
'C13': "Documented formulas per method, tabulated curves as frozen data interpolated by the check; geometry given in equivalent ways must agree; identical areas give zero.",
'C14': "Same for bends, valves (Crane formulae 1-7 by style), branches and tees, 2K/3K; helices and spirals by adding up bends.",
'C15': "A loss expressed through any chain of equivalent coefficients must predict the same pressure drop (invariant along a random walk).",
'C16': "IEC 60534-2-1 sizing implemented again step by step (laminar trial, piping factors, choked limit) and by consistency: the reported coefficient put back into the flow equation returns the flow.",
'C17': "IEC 60534-8-3/-4 implemented again; monotonicity and scaling relations independent of it.",
'C18': "API 520 equations, tables frozen from the reviewed tree, the gas area also as an isentropic nozzle integral.",
'C19': "A state is built forwards from the published discharge coefficients; the solver must return each unknown, for every meter type and tapping.",
'C20': "Every standard's equation written again (ISO 5167, 15377, Miller, AGA, Stewart, ...), switch points explicit; losses related to K and back; isothermal limits.",
'C21': "Volumes and areas as tanh-sinh integrals of the documented solids, independent of the closed forms in the code.",
'C22': "TANK against the solids of vf/solids.py: volumes, areas, level/volume inverses, lookup tables, Chebyshev approximants, random histories of operations, two-specification solving.",
'C23': "Geometric identities, all sufficient specification pairs must give the same object, insufficient or contradictory ones must raise.",
'C24': "Numerical integration of the documented densities: cumulative values, quantiles, means, truncated and re-based distributions.",
'C25': "Discrete distributions: the same particles described by any quantity or cumulatively must agree; conversions between bases through bin moments; sieve series frozen and checked against their geometric progressions.",
'C26': "Tables copied from the reviewed tree; the nearest-entry rule decided by brute force, invariants of the dimensions (OD = ID + 2t).",
'C27': "Each two-phase pressure-drop correlation written again from the documentation with all branches; single-phase limits.",
'C28': "Each void-fraction and mixture-viscosity model written again; bounds, slip and density relations.",
'C29': "Maps decided by independent transition curves; Taitel-Dukler additionally from its theory; Beggs-Brill holdup and regime limits.",
'C30': "Drag correlations written again; terminal velocity as a root of the force balance; settling by an independent ODE integration and energy/time identities.",
'C31': "Correlations written again; similarity and monotonicity relations; dispatch by known inputs.",
'C32': "Correlations, implicit equations by residual, flooding as the point where the irrigated pressure drop has no solution.",
'C33': "US Standard Atmosphere 1976 integrated from its layer definition; hydrostatic balance by differentiation; line integral of pressure by quadrature.",
'C34': "Frozen copy of the published model as reference for every switch setting, plus history and thread independence, periodicity and density/species consistency.",
'C35': "Frozen SPA tables as exact reference and Meeus's low-precision formulas as independent one; time-zone invariance; sunrise and sunset by scanning the elevation.",
'C36': "Records generated with known contents and parsed; statistics recomputed from the generated data; nearest station by brute force.",
'C37': "Functions with known roots: the returned point must be within the stated tolerance of a root, brackets respected, the number of evaluations bounded by maxiter, errors only as documented.",
'C38': "Systems with known solution: returned points satisfy the residual or step criteria; bounds translated there and back; direct solves against NumPy.",
'C39': "Exact rational arithmetic evaluates the polynomials; derivatives, integrals and basis conversions likewise.",
'C40': "Roots must make the polynomial vanish to a backward-error bound from mpmath; coefficient and root constructions inverted.",
'C41': "Residuals and conditioning bounds, NumPy/SciPy as reference.",
'C42': "50-digit mpmath as reference, error bounds in units of 2^-104; ordering exact.",
'C43': "SciPy/NumPy/mpmath references and integrals with known values.",
'C44': "Known derivatives; truncation error bounded from the Taylor remainder.",
'C45': "Weir, Manning and Chezy formulas written again; tables frozen; monotone in head.",
'C46': "Every returned state is put back into the documented equations.",
'C47': "Tables frozen; interpolation independent; definitions inverted.",
'C48': "Correlations written again on both sides of every branch; implicit ones by residual.",
'C49': "Stateful: random sequences of calls whose outcome must equal that of each call made alone in a fresh process; arguments and returned containers overwritten between calls; threads, hash seeds.",
'C50': "Fresh interpreters importing modules in random orders; identity of objects; documented names frozen in props/data/namespace.json; constants by definition.",
'C51': "The function the approximant was built from is the oracle for values, programs of operations, calculus, roots and conversions.",
}
FA = open(os.path.join(V, 'tools', 'design_notes.md')).read()
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]; K = json.load(open(V + '/known_findings.json')); kf = K['findings']; fx = K['fixed']
    seeds = {}
    for m in sorted(glob.glob(V + '/seeded/*/meta.json')): seeds.setdefault(json.load(open(m))['property'], []).append((os.path.basename(os.path.dirname(m)), json.load(open(m))))
    out = ['\n# Per property\n', 'Bounds are those of the generators (the rule under each property). Cost: quick 1-20 s per check on 8 cores unless stated (C03 50 s, C49 35 s); thorough runs the same sub-checks with 10-60 times the cases.\n']
    for p in props:
        P = importlib.import_module('props.' + p['id'].lower()).P; i = p['id']
        out.append('## %s %s\n%s\n' % (i, p['title'], T[i]))
        out.append('* Generated: %s' % P.rule)
        if P.assumptions: out.append('* Assumed: %s' % '; '.join(P.assumptions))
        out.append('* Sub-checks (quick cases): %s' % ', '.join('%s %d' % (k, s.n) for k, s in P.subs.items()))
        k = [e for e in kf if e['property'] == i and e.get('status') == 'known']; f = [e for e in fx if ('property=%s ' % i) in (e if isinstance(e, str) else json.dumps(e)) or (isinstance(e, dict) and e.get('property') == i)]
        if f: out.append('* Defects repaired: %d (known_findings.json)' % len(f))
        if k: out.append('* Known findings: %s' % '; '.join(sorted({e['what'] for e in k})))
        if i in seeds: out.append('* Planted bugs: %s' % '; '.join('%s (%s) - %s' % (n, m['needs'], 'caught' if m.get('caught', True) else 'missed') for n, m in seeds[i]))
        out.append('')
    d = open(V + '/DESIGN.md').read().split('\n# Per property\n')[0].rstrip('\n') + '\n'
    d = d.replace('\n(Per-property details are in the second half of this file.)\n', '')
    open(V + '/DESIGN.md', 'w').write(d + '\n'.join(out) + '\n' + FA)
main()
