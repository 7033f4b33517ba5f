"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props_src.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over if isinstance(over, list) else [over], text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=['fluids/'+f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p('C01', 'Unit-aware calls give the plain result whatever compatible units are used',
 '''Calling any function or class through fluids.units with quantities in any units compatible with the documented ones returns quantities that,
 converted to the documented output units, equal what the plain SI call returns. For arguments documented with dimensions, quantities of incompatible dimensions and bare numbers are rejected with an exception.''',
 ['inputs', 'programs'], 'every wrapped function or class, every compatible unit choice per argument, positional or keyword passing, every solved-for variable',
 'tests call a few dozen functions with one unit choice each', ['units.py'],
 [('docstring unit parsing', 'fluids/units.py: parse_numpydoc_variables_units'), ('input/output conversion', 'fluids/units.py: wraps_numpydoc, convert_input, convert_output'), ('variable outputs', 'fluids/units.py: variable_output_wrapper')])
p('C02', 'Vectorized namespace equals the scalar function applied elementwise',
 '''Every function in fluids.vectorized whose arguments and results are not lists, called with arrays, lists and scalars returns, after NumPy broadcasting, exactly the scalar function's result for each element, and raises where the scalar raises.''',
 ['inputs', 'programs'], 'every exported function, every broadcastable mixture of scalars and arrays including 0-d and size-1', 'tests vectorize a handful of functions over one array each',
 ['vectorized.py'], [('np.vectorize wrapping', 'fluids/vectorized.py')])
p('C03', 'Numba-compiled functions equal the pure Python ones',
 '''Every function which fluids.numba supports (fluids.numba.rst lists those it does not) compiles, and the compiled function returns the same value as the interpreted one for the same arguments (to floating-point tolerance), both for scalars and, through fluids.numba_vectorized, for arrays; both raise or both succeed.''',
 ['inputs', 'programs'], 'supported compiled functions and all inputs in their documented domain, including optional arguments left out', 'test_numba compares single points',
 ['numba.py'], [('source transformation and compilation', 'fluids/numba.py: transform_complete, remove_branch, numba_dict')])
p('C04', 'Consistent units in, consistent units out',
 '''For every function whose equation contains no dimensional constants, expressing all inputs in another consistent system of units (rescaled mass, length, time and temperature) rescales the result exactly by the dimensions of its documented output unit.''',
 ['inputs'], 'all dimensionally homogeneous public functions, all positive scalings of the base dimensions, all inputs', 'tests use SI numbers only',
 ['core.py', 'geometry.py', 'friction.py', 'two_phase.py', 'packed_bed.py', 'drag.py', 'compressible.py', 'control_valve.py'], [('formulas in consistent units', 'docs/tutorial.rst Design Philosophy; every correlation module')])
p('C05', 'Dimensionless groups equal their definitions and each other',
 '''Every dimensionless-number function equals its documented definition for all inputs, all its alternative input sets describing the same physical state give the same value, the standard identities between groups hold, and an insufficient input set raises ValueError.''',
 'inputs', 'all positive property values over many decades, all alternative argument sets and missing-argument subsets', 'tests evaluate each group at one or two points', ['core.py'], [('group definitions', 'fluids/core.py')])
p('C06', 'Conversion pairs are exact inverses',
 '''Conversions between temperature scales, pressure and head, kinematic and dynamic viscosity, loss coefficient and friction factor / equivalent length / flow coefficient (Kv, Cv, Av) / discharge coefficient, Manning and Chezy coefficients, and friction and transmission factor invert each other for every input, compose consistently along any path, and match their physical definitions.''',
 'inputs', 'all finite inputs in the domain of each conversion; every composition path between scales', 'tests check single values', ['core.py', 'fittings.py', 'control_valve.py', 'flow_meter.py', 'open_flow.py', 'friction.py'],
 [('temperature conversions', 'fluids/core.py'), ('Kv/Cv/K conversions', 'fluids/fittings.py'), ('convert_flow_coefficient', 'fluids/control_valve.py'), ('discharge coefficient/K', 'fluids/flow_meter.py')])
p('C07', 'Gas pipeline equations solve consistently for every unknown',
 '''Each gas-pipeline flow equation satisfies its documented formula, and solving it for any one of flow, inlet pressure, outlet pressure, diameter or length given the other four recovers the value that was used to generate them. The isothermal model additionally refuses states beyond choked flow and any input set with other than one unknown.''',
 'inputs', 'all physically valid pipe states and every choice of unknown, including low pressure drop, near-choked and non-default base conditions', 'tests round-trip one case per equation',
 ['compressible.py'], [('nine explicit pipeline formulas', 'fluids/compressible.py: Panhandle_A .. IGT'), ('isothermal solver', 'fluids/compressible.py: isothermal_gas')])
p('C08', 'Compression, stagnation and critical-flow relations are mutually consistent',
 '''The isentropic, polytropic and isothermal compression functions, stagnation relations and critical-flow relations satisfy their documented equations, solve for each allowed unknown so that substituting the answer back reproduces the given value, and reject under-specified calls.''',
 'inputs', 'all valid pressures, temperatures, exponents and efficiencies, compression and expansion, every unknown', 'tests check one case per unknown', ['compressible.py'], [('work/efficiency/stagnation relations', 'fluids/compressible.py')])
p('C09', 'Straight-pipe friction factors satisfy their published equations',
 '''The default turbulent friction factor satisfies the Colebrook equation to near machine precision over its full range, every other straight-pipe correlation equals its documented equation, and each lies within its published error band of Colebrook over its stated range.''',
 'inputs', 'Reynolds numbers from creeping flow to 1e8+, relative roughness 0 to 0.1+, including regime boundaries and extreme ratios', 'tests check a few points and some averages', ['friction.py'],
 [('Colebrook/Clamond solvers', 'fluids/friction.py: Colebrook, Clamond'), ('explicit correlations', 'fluids/friction.py')])
p('C10', 'Method-selecting functions honour their method contract',
 '''For every function with a selectable method, the listed methods for an input set are exactly the usable ones, every listed method evaluates to the value of the individually exposed correlation, omitting the method gives the documented default, and an unknown method name raises an exception wherever a method is consulted (laminar flow may be answered without one).''',
 ['inputs', 'configurations'], 'every selectable method of every dispatching function over all valid inputs, with optional properties present or absent and range checking on or off', 'tests check method lists and values at single points',
 ['friction.py', 'drag.py', 'packed_bed.py', 'two_phase.py', 'two_phase_voidage.py', 'fittings.py', 'separator.py'], [('dispatch tables', 'fluids/*.py: *_methods and Method arguments')])
p('C11', 'Curved-pipe and plate-exchanger friction follow their published equations',
 '''Helical-coil laminar and turbulent friction factors, critical Reynolds numbers and plate-exchanger friction factors equal their documented equations for every input, switch branch exactly at their stated limits, and the combined curved-pipe function selects the laminar or turbulent correlation by the critical Reynolds number.''',
 'inputs', 'all Reynolds numbers, curvature ratios, roughnesses and chevron angles, including branch boundaries', 'tests sample each at one to four points', ['friction.py'], [('helical and plate correlations', 'fluids/friction.py')])
p('C12', 'Pressure-drop components obey momentum and energy balances',
 '''One-phase and two-phase acceleration and gravitational pressure-drop functions equal the documented balances, their differential forms integrate to the finite forms, the two-phase forms reduce to one-phase forms in the single-phase limit, and one-phase frictional drop equals Darcy-Weisbach with the selected friction factor and is proportional to length.''',
 'inputs', 'all flow rates, diameters, densities, qualities, void fractions and angles', 'tests check single points', ['friction.py', 'two_phase.py'], [('one_phase_dP*', 'fluids/friction.py'), ('two_phase_dP_*', 'fluids/two_phase.py')])
p('C13', 'Entrance, exit, contraction and diffuser loss coefficients follow their sources',
 '''Loss coefficients for entrances, exits, contractions and diffusers equal the documented equations of each selectable method for every geometry, are finite and non-negative over their valid domain, and reduce to the stated limiting cases (no area change, sharp edge, zero rounding length).''',
 'inputs', 'all diameter ratios, angles, lengths, radii, friction inputs and methods within documented limits', 'tests check isolated geometries', ['fittings.py'], [('entrance_*, contraction_*, diffuser_*', 'fluids/fittings.py')])
p('C14', 'Bend, coil, valve and tee loss coefficients follow their sources',
 '''Loss coefficients for bends, miters, helices, spirals, valves, tees and the two/three-K methods equal their documented equations for every geometry and style, switch formula exactly where the source says, and alternative ways to specify the same geometry give the same value.''',
 'inputs', 'all geometries, angles, Reynolds numbers, styles and named fittings within documented limits', 'tests check isolated geometries', ['fittings.py'], [('bend_*, helix, spiral, K_*_valve_Crane, K_branch_*, Darby3K, Hooper2K', 'fluids/fittings.py')])
p('C15', 'Loss and flow coefficients are invariant under change of basis',
 '''Re-expressing a loss coefficient on another diameter, as a valve coefficient, as an equivalent length or as a discharge coefficient preserves the pressure drop it predicts at the same flow, and going through any chain of such re-expressions and back returns the original coefficient.''',
 'inputs', 'all coefficients and diameters', 'tests check single conversions', ['fittings.py', 'core.py', 'flow_meter.py', 'control_valve.py'], [('change_K_basis, K_to_Kv, discharge_coefficient_to_K', 'fluids/fittings.py, fluids/flow_meter.py')])
p('C16', 'Control-valve sizing inverts the IEC 60534 flow equations',
 '''The flow coefficient returned by liquid or gas control-valve sizing, put back into the published forward flow equation with the reported choking, piping and Reynolds-number factors, reproduces the requested flow. The reported choked/laminar flags and factors satisfy their published definitions, and the detailed and brief outputs agree.''',
 'inputs', 'all fluids, pressures, valve and pipe sizes, with piping data absent or present and with choking or laminar flow allowed or not', 'tests check about ten published examples', ['control_valve.py'], [('sizing iterations', 'fluids/control_valve.py: size_control_valve_l, size_control_valve_g')])
p('C17', 'Control-valve noise predictions follow IEC 60534-8',
 '''Liquid and gas control-valve noise levels equal an independent evaluation of the published calculation procedure for every operating point, in every flow regime, and change as the procedure prescribes with pipe wall and valve corrections.''',
 'inputs', 'all operating points in all five gas regimes and both liquid regimes, pipe thickness and optional corrections', 'tests check the standard\'s worked examples only', ['control_valve.py'], [('noise procedures', 'fluids/control_valve.py: control_valve_noise_l_2015, control_valve_noise_g_2011')])
p('C18', 'Relief-valve sizing follows API 520/521 and rounds up safely',
 '''Relief areas and capacity correction factors for gas, steam and liquid equal the published API equations and table interpolations for every input in range, critical and subcritical branches included, a standard orifice selection is the smallest one not smaller than the required area, and out-of-range inputs raise.''',
 'inputs', 'all flow rates, pressures, temperatures, back pressures, viscosities and editions in range, table knots and between knots', 'tests check the worked examples', ['safety_valve.py'], [('API520_*, API521_*', 'fluids/safety_valve.py')])
p('C19', 'Flow-meter equation solves consistently for every unknown',
 '''For every differential-pressure meter type, solving for mass flow, throat size, upstream or downstream pressure from the other quantities recovers the value used to generate them, and the solution satisfies the published flow equation with the discharge coefficient and expansibility reported for that state. User-specified coefficients override the correlations.''',
 'inputs', 'all meter and tap types, geometries, pressures, fluids, and choice of unknown', 'tests round-trip one state per type', ['flow_meter.py'], [('solver', 'fluids/flow_meter.py: differential_pressure_meter_solver')])
p('C20', 'Discharge, expansibility and pressure-loss correlations follow their standards',
 '''Discharge coefficients, expansibility factors, diameter ratios and permanent pressure losses for orifice, nozzle, venturi, cone and wedge meters equal the published equations for every geometry and tapping, with expansibility tending to one as the pressure drop vanishes and the permanent loss never negative nor above the measured drop.''',
 'inputs', 'all geometries, Reynolds numbers, pressures and taps in the documented ranges', 'tests check single points', ['flow_meter.py'], [('C_*, *_expansibility, dP_*, *_meter', 'fluids/flow_meter.py')])
p('C21', 'Partially filled vessel volumes and areas equal the true geometry',
 '''Liquid volume and wetted area of every head shape and orientation at every fill height equal independent integration of the documented solid, increase with height from zero to the full head value, and satisfy the top/bottom symmetry of horizontal heads and concave/convex complementarity of vertical heads.''',
 'inputs', 'all diameters, head depths, dish and knuckle parameters and fill heights including branch boundaries', 'tests check tabulated heights', ['geometry.py'], [('V_horiz_*, V_vertical_*, SA_partial_*, SA_*', 'fluids/geometry.py')])
p('C22', 'Tank objects are self-consistent for every specification',
 '''A tank built from any sufficient set of specifications reports dimensions, volumes and areas that agree with each other, reproduces the specified values, converts height to volume and back exactly over the whole height range by every available method, is rebuilt by its own text (repr), and rejects insufficient or contradictory specifications.''',
 ['inputs', 'histories'], 'all orientations, head types, specification subsets, fill heights, and sequences of table/approximation setup and lookups', 'tests cover selected tanks', ['geometry.py'], [('TANK', 'fluids/geometry.py: class TANK')])
p('C23', 'Exchanger, coil, tower and shape geometry is consistent for any valid inputs',
 '''Geometry objects for helical coils, plate, fin and air-cooled exchangers and cooling towers give the same object whichever sufficient subset of dimensions is specified, with areas, lengths and volumes equal to their documented definitions; simple shape functions equal exact geometry.''',
 'inputs', 'all sufficient specification subsets and dimensions', 'tests check single objects', ['geometry.py'], [('HelicalCoil, PlateExchanger, RectangularFinExchanger, HyperbolicCoolingTower, AirCooledExchanger, pitch_angle_solver', 'fluids/geometry.py')])
p('C24', 'Continuous particle-size distributions are proper distributions',
 '''For every continuous distribution, order and truncation, the density is non-negative and integrates to the cumulative distribution, which rises monotonically from 0 to 1 over its support; quantiles invert the cumulative function; and order conversions and moment means equal direct integration.''',
 'inputs', 'all parameters, orders, truncations and sizes for lognormal, Gates-Gaudin-Schuhman, Rosin-Rammler, custom and interpolated distributions', 'tests check single parameters', ['particle_size_distribution.py'], [('ParticleSizeDistributionContinuous', 'fluids/particle_size_distribution.py')])
p('C25', 'Discrete particle-size data conserve totals and give exact mean sizes',
 '''A discrete distribution built from counts, fractions or cumulative data of any order represents the same particles whichever form was given, its fractions sum to one, its means and percentiles equal their documented definitions, and size grids and sieve data are ordered and hit their end points.''',
 'inputs', 'all bin edges, counts, fraction vectors, orders, and grid specifications', 'tests use one published data set', ['particle_size_distribution.py'], [('ParticleSizeDistribution, psd_spacing, sieve tables', 'fluids/particle_size_distribution.py')])
p('C26', 'Pipe and gauge lookups return the right table entry',
 '''For any requested diameter, nominal size or gauge in any schedule, the lookup returns the smallest standard entry at least as large as requested (nearest entry for gauges as documented), whose inner diameter, outer diameter and wall thickness agree with each other and with a lookup by any other key; requests outside a table raise.''',
 ['inputs', 'configurations'], 'all schedules and sizes, exact entries, between entries, below and above the table', 'tests check selected sizes', ['piping.py'], [('nearest_pipe, gauge_from_t, t_from_gauge', 'fluids/piping.py')])
p('C27', 'Two-phase pressure-drop correlations follow their published equations',
 '''Every two-phase frictional pressure-drop correlation equals its documented equations for every state and regime branch, is proportional to length, finite and non-negative, and tends to the single-phase result where its equation does.''',
 'inputs', 'all mass flows, qualities, fluid properties, diameters, inclinations and regime branches', 'tests check one or two points each', ['two_phase.py'], [('correlations', 'fluids/two_phase.py')])
p('C28', 'Void-fraction and mixture-property models follow their published equations',
 '''Every void-fraction correlation equals its documented equation; the slip-ratio models lie between 0 and 1, increase with quality and hit the single-phase limits; mixture density inverts to the void fraction; and mixture viscosities equal their equations and the pure-phase values at the ends.''',
 'inputs', 'all qualities, densities, viscosities and flow conditions', 'tests check one point each', ['two_phase_voidage.py'], [('voidage and viscosity correlations', 'fluids/two_phase_voidage.py')])
p('C29', 'Flow-regime maps classify every point consistently with their boundaries',
 '''The two-phase regime maps return the regime given by an independent evaluation of the published transition boundaries for every state, together with the coordinates they report, and the inclined-pipe regime, holdup and pressure gradient model is consistent with its published procedure in every regime.''',
 'inputs', 'all horizontal and inclined flow states, including points close to transition lines', 'tests check points in a few regimes', ['two_phase.py'], [('Mandhane_Gregory_Aziz_regime, Taitel_Dukler_regime, Beggs_Brill', 'fluids/two_phase.py')])
p('C30', 'Sphere drag and settling satisfy the force balance',
 '''Sphere drag correlations equal their documented equations in every branch, the terminal velocity balances weight, buoyancy and drag for every method, settling time and trajectory functions agree with independent integration of the equation of motion, and all respect sign and Stokes limits.''',
 'inputs', 'all particle sizes, densities, fluids, initial velocities, times and drag methods', 'tests check isolated points', ['drag.py'], [('drag_sphere, v_terminal, time_v_terminal_Stokes, integrate_drag_sphere', 'fluids/drag.py')])
p('C31', 'Packed-bed pressure drop and voidage follow their published equations',
 '''Every packed-bed pressure-drop correlation equals its documented equation for every bed and flow including its branches, is proportional to bed length and increasing in velocity, sphericity is applied as documented, and voidage predictions equal their equations.''',
 'inputs', 'all particle sizes, voidages, velocities, fluids, bed and tube sizes', 'tests check single points', ['packed_bed.py'], [('correlations', 'fluids/packed_bed.py')])
p('C32', 'Packed-tower hydraulics solve their published implicit equations',
 '''Irrigated pressure drop satisfies the published implicit equation, exceeds the dry drop, approaches it as liquid vanishes and ceases to exist beyond the predicted flooding velocity; the dry, Robbins and demister correlations equal their documented equations.''',
 'inputs', 'all packings, gas and liquid loads and properties below flooding', 'tests check single points', ['packed_tower.py'], [('Stichlmair_wet, Stichlmair_flood, Robbins, demisters', 'fluids/packed_tower.py')])
p('C33', 'The standard atmosphere satisfies its defining physics at every altitude',
 '''At every altitude, temperature follows the standard layer profile, pressure satisfies hydrostatic balance and is continuous across layers, density satisfies the ideal-gas law, gravity, viscosity, conductivity and sound speed equal the published formulas, and a temperature offset or a pressure integral between elevations is consistent with them.''',
 'inputs', 'all geometric altitudes 0 to 86 km and beyond as documented, temperature offsets and elevation pairs including layer boundaries', 'tests check tabulated altitudes', ['atmosphere.py'], [('ATMOSPHERE_1976', 'fluids/atmosphere.py'), ('airmass', 'fluids/atmosphere.py')])
p('C34', 'The NRLMSISE-00 atmosphere is a pure function of its inputs',
 '''Atmosphere composition, temperature and pressure depend only on the given arguments and never on what was evaluated before or concurrently in other threads; number densities, mole fractions, mass density, molecular mass and pressure agree with one another; and the model agrees with the published reference formulation.''',
 ['inputs', 'histories', 'schedules'], 'all altitudes to 1000 km, positions, days, times and solar/geomagnetic indices, in any order and from several threads', 'tests evaluate the model sequentially at tabulated points', ['atmosphere.py', 'nrlmsise00/nrlmsise_00.py'], [('per-call state', 'fluids/nrlmsise00/nrlmsise_00.py: gtd7, gts7'), ('ATMOSPHERE_NRLMSISE00', 'fluids/atmosphere.py')])
p('C35', 'Solar position, day events and irradiation are mutually consistent',
 '''Solar position agrees with an independent astronomical model to published accuracy at any moment and place, zenith and elevation angles are complementary, the sun crosses the horizon at the reported sunrise and sunset and is highest at transit, results do not depend on the time zone an instant is expressed in, irradiation components add up to their total, and irradiation varies with the distance of the earth from the sun over the year as the selected method says.''',
 'inputs', 'all moments, latitudes, longitudes, elevations, time zones and surface orientations', 'tests check single moments', ['atmosphere.py', 'optional/spa.py', 'optional/irradiance.py'], [('solar_position, sunrise_sunset, solar_irradiation', 'fluids/atmosphere.py')])
p('C36', 'Weather-record parsing and climate statistics are faithful to the data',
 '''Daily weather records parse to the values written in them with documented unit conversions and missing-value markers, station statistics equal direct computation from the records, nearest-station search returns the closest qualifying station, downloaded and cached records and coordinates belong to the station, year or address asked for, and degree-day functions equal their definitions.''',
 'inputs', 'all well-formed records including missing fields and flags, all station records, query points and temperature series', 'tests use one station', ['design_climate.py'], [('gsod_day_parser, StationDataGSOD, get_closest_station', 'fluids/design_climate.py')])
p('C37', 'Scalar root finders return genuine roots or raise',
 '''Every bundled scalar solver, given a function and starting data meeting its documented preconditions, either returns a point satisfying its stated tolerance (inside the bracket or bounds where given) or raises its documented error; it never silently returns a non-root.''',
 ['inputs', 'programs'], 'generated functions with known roots, brackets, bounds, guesses and tolerances', 'tests solve a few fixed functions', ['numerics/__init__.py'], [('brenth, bisect, ridder, secant, newton, halley, one_sided_secant', 'fluids/numerics/__init__.py')])
p('C38', 'Multivariable solvers and minimisers return genuine solutions or raise',
 '''Every bundled system solver, fixed-point accelerator and minimiser, and the interface selecting among them, returns a point satisfying its stated convergence criterion for the given problem with Python lists or arrays, within bounds where given, or raises; equivalent formulations of one problem give the same solution.''',
 ['inputs', 'programs'], 'generated systems with known solutions, dimensions, guesses, bounds and tolerances', 'tests solve a few fixed systems', ['numerics/__init__.py'], [('newton_system, broyden2, homotopy_solver, fixed_point*, nelder_mead, SolverInterface', 'fluids/numerics/__init__.py')])
p('C39', 'Polynomial evaluators agree with exact arithmetic in every form',
 '''Every polynomial-family evaluator (plain, reversed, scaled, exponential, logarithmic and Chebyshev forms) equals exact evaluation of the represented function, its derivative-returning variants return the same value and the true derivatives, and conversions between forms preserve the function.''',
 'inputs', 'all coefficient vectors including empty and single-term, offsets, scales and arguments', 'tests evaluate selected polynomials', ['numerics/polynomial_evaluation.py', 'numerics/polynomial_utils.py', 'numerics/__init__.py'], [('horner*, exp_horner*, chebval*, exp_cheb*', 'fluids/numerics')])
p('C40', 'Polynomial roots and algebra are correct',
 '''Closed-form polynomial root functions return all roots with multiplicity to the accuracy the conditioning allows, in degenerate leading-coefficient cases too, and polynomial addition, multiplication, differentiation, integration, deflation and construction from points equal exact algebra.''',
 'inputs', 'all coefficient vectors, multiple and clustered roots, degenerate degrees', 'tests check selected polynomials', ['numerics/polynomial_roots.py', 'numerics/polynomial_utils.py'], [('roots_quadratic/cubic/quartic, poly*', 'fluids/numerics')])
p('C41', 'List-based linear algebra equals exact linear algebra',
 '''Determinants, inverses, factorizations, solves, products, tridiagonal conversions, null spaces, least squares and sorting helpers on nested lists equal exact arithmetic to conditioning accuracy for every size, leave their inputs unmodified unless documented as in-place, and raise on exactly singular inputs (a zero row or column) where documented.''',
 'inputs', 'all matrix sizes and structures including permuted, singular, 1x1 and non-square', 'tests check selected matrices', ['numerics/arrays.py'], [('det, inv, lu, solve, ...', 'fluids/numerics/arrays.py')])
p('C42', 'Double-double arithmetic delivers double-double accuracy',
 '''Every double-double operation, real or complex, returns a result within double-double accuracy (about 30 digits, relative to the operands where terms cancel) of exact arithmetic while no intermediate over- or underflows, ordering comparisons agree with exact ordering, and results are normalised so operations compose.''',
 'inputs', 'all finite operand pairs, signs, magnitudes, cancellations', 'tests check selected values', ['numerics/doubledouble.py'], [('*_dd', 'fluids/numerics/doubledouble.py')])
p('C43', 'Interpolation, quadrature, grids, statistics and special functions are accurate',
 '''The bundled replacements for interpolation, spline evaluation, quadrature, grids, differences, statistics, error measures, comparison helpers, special functions and saturating transforms agree with reference implementations or exact values within floating-point tolerance over their whole domain.''',
 'inputs', 'all data, knots, orders, domains, extrapolation settings and integrands', 'tests check selected data', ['numerics/__init__.py', 'numerics/special.py'], [('interp, splev, bisplev, quad, cumulative_trapezoid, ...', 'fluids/numerics')])
p('C44', 'Numerical derivatives, Jacobians and Hessians match analytic ones',
 '''Numerical first and higher derivatives, Jacobians and Hessians of smooth functions agree with analytic derivatives to the accuracy of the requested scheme, respect stated evaluation limits, accept lists or arrays alike, and do not modify the evaluation point.''',
 ['inputs', 'programs'], 'generated smooth functions, points, orders, step sizes, limits', 'tests check selected functions', ['numerics/__init__.py'], [('derivative, jacobian, hessian', 'fluids/numerics/__init__.py')])
p('C45', 'Open-channel and weir equations follow their sources',
 '''Weir discharge, Manning and Chezy velocity and coefficient conversions equal their documented equations for every geometry, tabulated coefficients are interpolated between their tabulated angles or ratios, and coefficient conversion leaves the predicted velocity unchanged.''',
 'inputs', 'all heads, widths, notch angles, slopes and roughnesses', 'tests check single points', ['open_flow.py'], [('weirs, Manning, Chezy', 'fluids/open_flow.py')])
p('C46', 'Jet-pump and ejector calculations solve consistently for every unknown',
 '''The jet-pump solver returns states satisfying the published dimensionless pressure-ratio and ancillary relations with the specified quantities reproduced, whichever unknowns are left out, and vacuum air-leakage correlations equal their documented equations in every pressure band.''',
 'inputs', 'all geometries, fluids, flow rates, and choices of unknowns', 'tests check one pump', ['jet_pump.py'], [('liquid_jet_pump, vacuum_air_leakage_*', 'fluids/jet_pump.py')])
p('C47', 'Pump, motor and electrical functions follow tables and equations',
 '''Motor size rounding returns the smallest standard size not below the request, tabulated efficiencies are interpolated or looked up as documented and stay between 0 and 1, and specific speed, specific diameter, synchronous speed and current equal their definitions for every input.''',
 ['inputs', 'configurations'], 'all powers, loads, pole counts, enclosures, flows, heads, speeds, voltages and phases', 'tests check selected entries', ['pump.py'], [('motor tables', 'fluids/pump.py')])
p('C48', 'Mixing, screen, saltation and separator correlations follow their sources',
 '''Static and agitated mixing, screen and grille losses, pneumatic-conveying saltation and vapour-liquid separator correlations equal their documented equations for every input and interpolation table, within documented limits.''',
 'inputs', 'all inputs within documented limits', 'tests check single points', ['mixing.py', 'filters.py', 'saltation.py', 'separator.py'], [('correlations', 'fluids/mixing.py, filters.py, saltation.py, separator.py')])
p('C49', 'Calculations are pure: no input mutation, no history or order dependence',
 '''Calling any public function with the same arguments always returns the same value whatever was called before it, from whichever thread and under any string hash seed; it leaves every list, dict or array argument and process-wide state (random generators, NumPy and mpmath settings, environment) unmodified, and lists, dicts and arrays returned by functions are independent of internal state so that modifying them never changes later results.''',
 ['histories', 'schedules', 'inputs'], 'all interleavings of public calls, also of query methods on shared tank, particle size distribution and Chebyshev objects, including failing calls and callers that modify returned lists', 'tests run in one fixed order', ['friction.py', 'two_phase.py', 'flow_meter.py', 'fittings.py', 'particle_size_distribution.py', 'geometry.py', 'atmosphere.py', 'numerics/__init__.py'], [('module-level tables and caches', 'fluids/*.py')])
p('C50', 'Public namespaces are complete and coherent',
 '''Every documented name is reachable from the top-level package and its submodule as the same object whatever the order of imports, derived namespaces expose wrapped versions of all of them (a few classes deliberately have no unit-aware version), star-import lists are accurate, unit conversion factors are exact, and physical constants agree with their SI definitions or CODATA values and with each other.''',
 ['configurations'], 'all names, modules and import orders', 'tests import a few names', ['__init__.py', 'constants/constants.py', 'vectorized.py', 'units.py'], [('__all__ lists', 'fluids/__init__.py'), ('constants', 'fluids/constants/constants.py')])
p('C51', 'Chebyshev approximants represent, combine and convert functions faithfully',
 '''A Chebyshev approximant of a smooth function evaluates, adds, multiplies, differentiates, integrates, restricts and finds roots consistently with the function it was built from on any domain, and converting it to polynomial coefficients preserves its values.''',
 ['inputs', 'programs'], 'generated smooth functions and polynomials, domains, degrees and operation sequences', 'tests check a few functions', ['optional/pychebfun.py'], [('Chebfun', 'fluids/optional/pychebfun.py')])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    checks, na = [], []
    notes = {}
    lv = os.path.join(V, 'tools', 'level_notes.json')
    if os.path.exists(lv): notes = json.load(open(lv))
    for x in P:
        i = x['id']
        if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i, evidence_file='evidence/%s.json' % i,
                technique=notes.get(i, {}).get('technique', 'property-based testing (Hypothesis) against independent reference models and metamorphic relations'),
                level='exploration', level_note=notes.get(i, {}).get('note', 'Randomised search: shows no counterexample among the generated cases; trusts the hand-written oracle and stated tolerances.')))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks in /repo are needed.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')
main()
