"""C04: dimensional homogeneity of the documented formulas: a change of the base units of the arguments changes results as their documented units say."""
from math import *
import inspect, random, warnings
import fluids
from vf import corpus
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C04', rule='Recorded valid calls of functions without dimensional constants, moved at random, re-evaluated with all dimensional arguments (defaults included) rescaled to another system of base units. Non-trivial: the scale of some argument differs from one.',
         assumptions=['the gas constant is kept by the scale of the mole; functions containing standard gravity keep it (length scale the square of the time scale)', 'functions with empirical dimensional constants, documented as such by their formulas, are excluded by name, method or argument',
                      'results may differ by 1e-9 plus 1e4 times the change due to moving all arguments by 1e-13'])
BASE = {'kg': (1, 0, 0, 0, 0), 'g': (1, 0, 0, 0, 0), 'm': (0, 1, 0, 0, 0), 's': (0, 0, 1, 0, 0), 'seconds': (0, 0, 1, 0, 0), 'K': (0, 0, 0, 1, 0), 'mol': (0, 0, 0, 0, 1), 'Pa': (1, -1, -2, 0, 0), 'N': (1, 1, -2, 0, 0), 'J': (1, 2, -2, 0, 0), 'W': (1, 2, -3, 0, 0), 'Hz': (0, 0, -1, 0, 0),
        'hr': (0, 0, 1, 0, 0), 'rpm': (0, 0, -1, 0, 0), 'revolutions': (0, 0, 0, 0, 0), 'second': (0, 0, 1, 0, 0), 'minute': (0, 0, 1, 0, 0), 'gallons': (0, 3, 0, 0, 0), 'ft': (0, 1, 0, 0, 0), 'inch': (0, 1, 0, 0, 0), 'lb': (1, 0, 0, 0, 0)}
class Q:
    def __init__(self, d): self.d = d
    def __mul__(self, o): return Q(tuple(a + b for a, b in zip(self.d, o.d))) if isinstance(o, Q) else self
    __rmul__ = __mul__
    def __truediv__(self, o): return Q(tuple(a - b for a, b in zip(self.d, o.d))) if isinstance(o, Q) else self
    def __rtruediv__(self, o): return Q(tuple(-a for a in self.d))
    def __pow__(self, p): return Q(tuple(a*p for a in self.d))
NS = {k: Q(v) for k, v in BASE.items()}; NS['sqrt'] = lambda q: q**.5
_dims = {}
def dims(un):
    if un not in _dims: _dims[un] = (0,)*5 if un in ('dimensionless', 'degrees', 'decibels', 'dB', 'degC') else eval('inch' if un == 'in' else un.replace('^', '**'), {}, NS).d
    return _dims[un]
# functions in which standard gravity is fixed
GFIX = set('Bond Eotvos C_Reader_Harris_Gallagher_wet_venturi_tube Chen_Friedel Friedel Gronnerud Guzhov Hwang_Kim Matsumoto_1974 Matsumoto_1975 Matsumoto_1977 Schade Stichlmair_wet Tran Xu_Fang Zhang_Hibiki_Mishima specific_diameter time_v_terminal_Stokes v_terminal integrate_drag_sphere two_phase_dP two_phase_dP_gravitational two_phase_dP_dz_gravitational liquid_gas_voidage dP_Reader_Harris_Gallagher_wet_venturi_tube'.split())
# functions with dimensional empirical constants, normal conditions or tables of dimensional values
OUT = set('''API520_A_l API520_A_steam API520_A_g API520_B API520_N API520_SH API520_W API520_round_size API521_noise Baroczy_Chisholm CSA_motor_efficiency C_Miller_1996 C_wedge_meter_Miller Chisholm Corripio_motor_efficiency Corripio_pump_efficiency Darby3K Hooper2K
 Fritzsche Geldart_Ling IGT K_separator_Watkins K_separator_demister_York Lombardi_Pedrocchi Mandhane_Gregory_Aziz_regime Mishima_Hibiki Muller Oliphant Panhandle_A Panhandle_B Weymouth Spitzglass_high Spitzglass_low Q_weir_V_Shen Q_weir_rectangular_Kindsvater_Carter Q_weir_rectangular_SIA
 Q_weir_rectangular_full_Ackers Q_weir_rectangular_full_Kindsvater_Carter Q_weir_rectangular_full_Rehbock Q_weir_rectangular_full_SIA Rizk Robbins Stichlmair_flood VDI_3732_noise_elevated_flare VDI_3732_noise_ground_flare VFD_efficiency Wang_Chiang_Lu Weber_saltation Woldesemayat_Ghajar
 bend_miter_Miller cdf_Rosin_Rammler pdf_Rosin_Rammler pdf_Rosin_Rammler_basis_integral control_valve_noise_g_2011 control_valve_noise_l_2015 current_ideal dP_demister_wet_ElDessouky dP_venturi_tube dP_wedge_meter ft_Crane gauge_from_t t_from_gauge gravity material_roughness motor_efficiency_underloaded motor_round_size
 nearest_pipe roughness_Farshad separation_demister_ElDessouky v_lift_valve_Crane vacuum_air_leakage_Coker_Worthington vacuum_air_leakage_HEI2633 vacuum_air_leakage_Ryans_Croll vacuum_air_leakage_Seider C2K F2C solar_position solar_irradiation sunrise_sunset earthsun_distance airmass liquid_jet_pump differential_pressure_meter_solver
 Crane_loss_coefficient Cv_to_Kv Kv_to_Cv nearest_material_roughness Kawahara time_v_terminal_Stokes bend_rounded_Crane K_butterfly_valve_Crane K_tilting_disk_check_valve_Crane'''.split())
CRANE = set('''K_angle_stop_check_valve_Crane K_angle_valve_Crane K_ball_valve_Crane K_diaphragm_valve_Crane K_foot_valve_Crane K_gate_valve_Crane K_globe_stop_check_valve_Crane K_globe_valve_Crane K_lift_check_valve_Crane K_plug_valve_Crane K_swing_check_valve_Crane'''.split())
# documented as m^3/hr or gallons/minute, but areas: flow over the square root of pressure drop over density
AREA = {(f, k) for f in ('K_to_Kv', 'Kv_to_K', 'Cv_to_K', 'K_to_Cv', 'Reynolds_factor', 'Reynolds_valve', 'size_control_valve_l', 'size_control_valve_g', 'loss_coefficient_piping') for k in ('Kv', 'Cv', 'C', 'K')} - {('K_to_Kv', 'K'), ('Kv_to_K', 'K'), ('Cv_to_K', 'K'), ('K_to_Cv', 'K')}
NOTMETHOD = {'bend_rounded': ('Crane', 'Crane standard', 'Miller'), 'bend_miter': ('Miller', 'Crane'), 'contraction_conical': ('Crane',), 'contraction_sharp': ('Hooper',), 'diffuser_conical': ('Crane', 'Hooper'), 'diffuser_sharp': ('Hooper',), 'contraction_rounded': (), 'liquid_gas_voidage': ('Woldesemayat Ghajar', 'Domanski Didion'), 'psd_spacing': ()}
SOLVED = dict(nu_mu_converter=['mu', 'nu'], isothermal_gas=['P1', 'P2', 'L', 'D', 'm'], isentropic_work_compression=['P1', 'P2', 'W', 'eta'], liquid_jet_pump_ancillary=['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2'])
NORMAL = {'size_control_valve_g'}       # gas flow given at normal conditions: pressure, temperature and the mole kept
BIGD = {'C_Reader_Harris_Gallagher': 'D', 'differential_pressure_meter_C_epsilon': 'D', 'differential_pressure_meter_dP': 'D'}
ANGLE_ONLY = {fn for fn, U in corpus.UNITS.items() if not any(any(dims(x[0])) for x in U['in'].values() if x[0] != '(1/m)^m' and 'V' not in x[0] and 'A' not in x[0])}
NAMES = sorted(set(corpus.CALLS) - OUT - ANGLE_ONLY)
QUAD = {fn for fn in NAMES if fn.startswith(('SA_', 'V_horiz'))} | {'V_from_h'}      # absolute quadrature tolerances
TOL = {'integrate_drag_sphere': 1e-5, 'V_horiz_spherical': 2e-6}; TOL.update({fn: 1e-5 for fn in NAMES if fn.startswith('SA_')})

def unit_of(fn, k):
    if (fn, k) in AREA: return 'm^2'
    return corpus.UNITS[fn]['in'].get(k, ['dimensionless'])[0]
def out_units(fn, r, e):
    if fn in SOLVED:
        miss = [k for k in SOLVED[fn] if e.get(k) is None]; return [unit_of(fn, miss[0])] if len(miss) == 1 else [unit_of(fn, k) for k in miss]
    if fn.endswith('_basis_integral'): return ['m^(%.17g)' % e['n']]
    if fn in ('K_to_Kv', 'K_to_Cv', 'size_control_valve_l', 'size_control_valve_g'): return ['m^2']
    return [x for _, x in corpus.UNITS[fn]['out']]
def excluded(fn, e):
    if e.get('taps') == 'flange': return True
    if fn in CRANE: return e.get('fd') is None
    if fn in NOTMETHOD:
        m = [e.get(k) for k in ('method', 'Method') if k in e]; m = m[0] if m else None
        if fn == 'psd_spacing': return m is not None and m not in ('linear', 'logarithmic')
        return m in NOTMETHOD[fn]
    if fn == 'two_phase_dP': return e.get('Method') in (None, 'Baroczy_Chisholm', 'Chisholm', 'Chisholm rough', 'Mishima_Hibiki', 'Lombardi_Pedrocchi', 'Wang_Chiang_Lu', 'Beggs-Brill')
    if fn in BIGD:
        t = e.get('meter_type', 'ISO 5167 orifice')
        if t in ('ISO 5167 orifice', 'orifice'): return e['D'] < .075
        return t is None or t in ('wedge meter', 'Miller eccentric orifice', 'Miller orifice', 'Miller conical orifice', 'Miller quarter circle orifice') or (fn == 'differential_pressure_meter_dP' and 'venturi' in t)
    if fn == 'time_v_terminal_Stokes': return e['tol'] < 1e-10
    return False
NARROW = {'Stichlmair_wet', 'Stichlmair_flood', 'size_control_valve_g', 'liquid_gas_voidage'}      # solutions and noise tied to absolute tolerances
def scaled(fn, full, S):
    out = {}; moved = False
    for k, v in full.items():
        if fn.endswith('_multiple_hole_cylinder') and k == 'holes': out[k] = [(d*S[1], n) for d, n in v]; moved = True; continue
        z = prod(s**p for s, p in zip(S, dims(unit_of(fn, k))))
        def ap(v):
            if isinstance(v, bool) or not isinstance(v, (int, float, list, tuple)): return v
            if isinstance(v, (list, tuple)): return type(v)(ap(x) for x in v)
            return v*z if z != 1 else v
        out[k] = ap(v); moved = moved or (z != 1 and v is not None)
    return out, moved
def flat(r):
    if isinstance(r, dict): return [r[k] for k in sorted(r)]
    return list(r) if isinstance(r, (list, tuple)) else [r]
def one(ctx, fn, i, g, own, S):
    f = getattr(fluids, fn); e = corpus.perturb(fn, corpus.entry(fn, i), [2*x - 1 for x in g], [2*x - 1 for x in own])
    full = {k: p.default for k, p in inspect.signature(f).parameters.items() if p.default is not inspect._empty}; full.update(e)
    if full.get('roughness') == 0 and isinstance(full.get('D'), float) and own[0] < .7: full['roughness'] = full['D']*10**(-4.5 + 3*own[1])
    if full.get('pts') and full['pts'] > 1000: full['pts'] = 50
    if excluded(fn, full): raise SkipCase('dimensional method')
    if fn in NARROW: S = [x**.36 for x in S]
    M, L, T, TH = S
    if fn in GFIX: L = T*T
    if fn in BIGD: L = max(L, 1/L)
    if fn in NORMAL: M, TH = L*T*T, 1.
    S = (M, L, T, TH, M*L*L/T/T/TH if fn not in NORMAL else L**3)
    try: r = f(**full)
    except Exception as x: raise SkipCase('plain call raises %s' % type(x).__name__)
    s, moved = scaled(fn, full, S)
    if not moved: ctx.trivial()
    near = []
    for sg in (1e-13, -1e-13):
        try: near.append(f(**{k: v*(1 + sg*(-1)**(j % 3)) if isinstance(v, float) and corpus.movable(fn, k, v) else v for j, (k, v) in enumerate(full.items())}))
        except Exception: raise SkipCase('at the edge of validity')
    near = [flat(n) for n in near]; r2 = f(**s); what = '%s with kg, m, s, K scaled by %r' % (fn, S[:4])
    un = out_units(fn, r, full); a, b = flat(r), flat(r2); ensure(type(r) is type(r2) and len(a) == len(b), '%s: %r, unscaled %r' % (what, r2, r))
    if isinstance(r, dict):
        d = dict(corpus.UNITS[fn]['out']); un = [d.get(k) or unit_of(fn, k) for k in sorted(r)]
        if fn.startswith('size_control'): un = ['m^2' if k in ('Kv', 'Cv', 'C') else x for k, x in zip(sorted(r), un)]
    elif len(un) < len(a): un = (un or ['dimensionless'])*len(a)
    for j, (x, y) in enumerate(zip(a, b)):
        w = [n[j] if len(n) > j else None for n in near]
        if isinstance(x, (str, bool)) or x is None or not isinstance(x, (int, float)):
            if any(v != x for v in w): raise SkipCase('at a boundary')
            if not isinstance(x, complex): ensure(x == y, '%s: %r, unscaled %r' % (what, y, x))
            continue
        sp = max(abs(v - x) for v in w); tol = TOL.get(fn, 1e-9)*abs(x) + 1e4*sp
        if x == 0 or (fn.startswith('SA_') and abs(x) < 1e-5) or not isfinite(x) or sp > 1e-7*abs(x): raise SkipCase('ill-conditioned')
        if fn.startswith(('A_', 'SA_', 'V_')): tol += 1e-10*max(abs(v) for k, v in full.items() if isinstance(v, (int, float)) and unit_of(fn, k) == 'm')**dims(un[j])[1]
        z = prod(q**p for q, p in zip(S, dims(un[j])))
        if fn in QUAD: tol += 3e-8*(1 + 1/z)
        ensure(isinstance(y, (int, float)) and abs(y/z - x) <= tol + 1e-290, '%s: result [%s] %r, from unscaled %r' % (what, un[j], y, x*z))
SC = lf(.0033, 300)
@P.sub(rec(fn=pick(NAMES), i=ints(0, 39), g=flist(unit, 5, 5), own=flist(unit, 7, 7), S=flist(SC, 4, 4)), n=4000, thorough=60000)
def calls(ctx, fn, i, g, own, S): one(ctx, fn, i, g, own, S)

class QUIET:
    label = trivial = staticmethod(lambda *a: None)
@P.sub(rec(s=ints(0, 10**6)), n=4, thorough=30)
def sweep(ctx, s):
    """every function, up to eight recorded calls of each, moved and rescaled at random"""
    R = random.Random(s); done = 0
    for fn in NAMES:
        for i in R.sample(range(len(corpus.CALLS[fn])), min(8, len(corpus.CALLS[fn]))):
            a = dict(fn=fn, i=i, g=[R.random() for _ in range(5)], own=[R.random() for _ in range(7)], S=[exp(R.uniform(-5.7, 5.7)) for _ in range(4)])
            try: one(QUIET, **a); done += 1
            except SkipCase: pass
            except Violation as x: fail('%s; case %r' % (x, a))
            except Exception as x: fail('%r: %s: %s' % (a, type(x).__name__, x))
    ensure(done > 800, 'only %d calls' % done)
