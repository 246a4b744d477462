"""Writes properties.jsonl and MANIFEST.json from the table below.

Only properties with a check module are claimed; the others go to
`not_applicable` with a reason.
"""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
HT = 'pygfunction/heat_transfer.py'
GF = 'pygfunction/gfunction.py'
BS = 'pygfunction/solvers/_base_solver.py'
DT = 'pygfunction/solvers/detailed.py'
SM = 'pygfunction/solvers/similarities.py'
EQ = 'pygfunction/solvers/equivalent.py'
PI = 'pygfunction/pipes.py'
NW = 'pygfunction/networks.py'
LA = 'pygfunction/load_aggregation.py'
UT = 'pygfunction/utilities.py'
ME = 'pygfunction/media.py'
BF = 'pygfunction/borefield.py'
BO = 'pygfunction/boreholes.py'

TESTS = ('Existing tests compare a few fixed configurations with stored '
         'numbers; ')

P = []


def prop(id, title, statement, over, text, why, mech, state=(), observe=(),
         technique='', note=''):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append(({'id': id, 'title': title, 'statement': statement,
               'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, technique, note))


prop('C01', 'Vertical line-source responses equal the line-source integral',
     'For any two vertical lines (any lengths, buried depths, radii and '
     'horizontal distance) and any time, including infinite time, the '
     'reported response is the double integral of the point-source solution '
     'over both lines, real source minus or without its mirror image '
     'according to the options, with the distance never below the borehole '
     'radius.',
     ['inputs'], 'all geometries, diffusivities, times, real/image options',
     TESTS + 'the integral must be right for every relative position, length '
     'and time, not for the handful sampled.',
     [('line source and its integrand', HT + ':finite_line_source, '
       '_finite_line_source_integrand'),
      ('steady state', HT + ':_finite_line_source_steady_state')],
     technique='Hypothesis-generated line pairs against an independently '
     'derived double integral of the point-source solution')
prop('C02', 'Inclined line-source responses are exact and move rigidly',
     'For any two lines of any tilt and orientation the response equals the '
     'mean over both lines of the point-source solution and its mirror image '
     'in the ground surface. It does not change when both lines are moved '
     'together by a translation, a rotation about the vertical or a '
     'reflection, and tends to the vertical response as tilts vanish.',
     ['inputs'], 'all tilts, orientations, positions, times and quadrature '
     'orders large enough to converge',
     TESTS + 'signs and angles of a three-dimensional formula can be wrong '
     'in orientations they do not use.',
     [('inclined line source', HT + ':_finite_line_source_inclined_integrand,'
       ' _finite_line_source_inclined_steady_state'),
      ('vectorised inclined', HT + ':finite_line_source_inclined_vectorized')],
     technique='Hypothesis-generated inclined pairs against point-by-point '
     'quadrature, plus rigid-motion metamorphic relations')
prop('C03', 'All line-source routes agree and are reciprocal',
     'Scalar, per-borehole, list and vectorised calls, any order and number '
     'of times, and any split into real and image parts return the same '
     'response for the same pair of lines. Exchanging source and target '
     'scales the response by the ratio of their lengths.',
     ['inputs', 'configurations'], 'all shapes of arguments, broadcasting '
     'patterns, time orders and options',
     TESTS + 'shapes, orders and mixes of arguments are unbounded.',
     [('line source front end', HT + ':finite_line_source'),
      ('vectorised routes', HT + ':finite_line_source_vectorized, '
       'finite_line_source_inclined_vectorized')],
     technique='Hypothesis differential testing between call routes and '
     'reciprocity / additivity relations')
prop('C04', 'Line-source responses obey the physics of conduction',
     'Responses are finite, non-negative and non-decreasing in time up to '
     'the steady state, decrease with distance, vanish at time zero, and are '
     'unchanged when all lengths are scaled together with the square root '
     'of time and diffusivity. Splitting a line into segments and averaging '
     'by length gives back the response of the whole line.',
     ['inputs'], 'all pairs of lines, times and splits',
     TESTS + 'laws relate pairs of inputs no stored number relates.',
     [('line sources', HT + ':finite_line_source and vectorised variants')],
     technique='Hypothesis metamorphic relations (monotonicity, scaling, '
     'subdivision, limits)')
prop('C05', 'Equivalent-borehole responses are averages over the boreholes',
     'The response between two groups of boreholes represented by one '
     'equivalent borehole each is the average of the responses between all '
     'their members, whatever the number of members and the repetition of '
     'distances.',
     ['inputs'], 'all groups, distances, weights, depths and times',
     TESTS + 'weights and repeated distances vary without bound.',
     [('equivalent line source',
       HT + ':finite_line_source_equivalent_boreholes_vectorized'),
      ('unique distances', BO + ':_EquivalentBorehole.unique_distance')],
     technique='Hypothesis-generated groups against the explicit average of '
     'pairwise responses')
prop('C06', 'Approximate line sources and special functions are accurate',
     'The exponential integral and the integral of the error function agree '
     'with their definitions over the whole positive axis, and the '
     'exponential-sum approximation of the line source stays within its '
     'accuracy of the exact response for any pair of lines, time and number '
     'of terms, improving as terms are added.',
     ['inputs'], 'all arguments; all pairs, times and 1 to 25 terms',
     TESTS + 'an approximation is only as good as its worst point.',
     [('special functions', UT + ':erfint, exp1, _erf_coeffs'),
      ('approximation', HT + ':finite_line_source_approximation, '
       'finite_line_source_inclined_approximation')],
     technique='Hypothesis-generated arguments against scipy and direct '
     'quadrature')
prop('C07', 'Load aggregation is the superposition of the aggregated history',
     'At every step of any simulation the temperature change returned by a '
     'load aggregation scheme is the convolution of its step responses with '
     'the load history averaged over its cells. When no loads have been '
     'merged yet it is the exact superposition of the whole history.',
     ['histories', 'configurations'], 'all schemes, cell parameters, source '
     'counts, response functions and sequences of loads and time steps',
     'No existing test covers load aggregation; the state depends on the '
     'whole history of steps.',
     [('Claesson-Javed', LA + ':ClaessonJaved'), ('MLAA', LA + ':MLAA'),
      ('Liu', LA + ':Liu')],
     [('cells', 'loads kept per cell', LA + ':q_b')],
     technique='Hypothesis histories against an explicit model of the cells '
     'and the convolution')
prop('C08', 'Load aggregation conserves loads and is linear and causal',
     'Results are linear in the loads and in the step responses, do not '
     'depend on later loads, are unaffected by interleaved zero loads of '
     'other sources, conserve the energy injected, repeat exactly in a scheme '
     'built anew, and are not disturbed by other schemes used in turns.',
     ['histories'], 'all schemes and sequences of operations',
     'No existing test covers load aggregation; laws relate several '
     'histories.',
     [('Claesson-Javed', LA + ':ClaessonJaved'), ('MLAA', LA + ':MLAA'),
      ('Liu', LA + ':Liu')],
     [('cells', 'loads kept per cell', LA + ':q_b')],
     technique='Hypothesis histories with metamorphic relations')
prop('C09', 'All g-function methods agree',
     'For any bore field, boundary condition, discretisation and times, the '
     'similarities and equivalent methods give the g-function of the '
     'detailed method within the accuracy their tolerances grant, also '
     'through networks of boreholes and for inclined fields.',
     ['inputs', 'configurations'], 'all fields and networks, all options '
     'each method supports',
     TESTS + 'grouping by similarity goes wrong on particular arrangements '
     'of boreholes, of which there are endlessly many.',
     [('detailed', DT + ':thermal_response_factors'),
      ('similarities', SM + ':find_similarities, _map_axial_segment_pairs_*'),
      ('equivalent', EQ + ':find_groups, thermal_response_factors')],
     technique='Hypothesis differential testing between the methods')
prop('C10', 'g-functions depend on the physical problem only',
     'Moving, rotating, reflecting or renumbering a bore field, changing '
     'units of length and time together, or describing the same field by '
     'another kind of object leaves the g-function unchanged. A network is '
     'likewise unaffected by renumbering its boreholes.',
     ['inputs'], 'all fields, networks and transformations',
     TESTS + 'invariance relates pairs of inputs.',
     [('solver', BS + ':solve'), ('input handling', GF + ':_format_inputs')],
     technique='Hypothesis metamorphic relations')
prop('C11', 'Heat rates and temperatures satisfy the boundary condition',
     'The heat rates and wall temperatures behind a g-function satisfy the '
     'superposition of line sources in space and time and the requested '
     'boundary condition: uniform rate, uniform wall temperature, or the '
     'fluid temperatures of the network, with the prescribed total rate. '
     'The g-function is the effective wall temperature they imply, for each '
     'pair of flow rates when several are given.',
     ['inputs', 'configurations'], 'all fields, networks, flows, '
     'discretisations, time sequences and methods',
     TESTS + 'the solution is only determined by laws it must satisfy for '
     'every input.',
     [('solver', BS + ':solve, temporal_superposition, '
       'load_history_reconstruction'),
      ('response factors', DT + ':thermal_response_factors'),
      ('response factors', SM + ':thermal_response_factors'),
      ('networks', NW + ':coefficients_*')],
     technique='Hypothesis-generated problems; solution substituted into an '
     'independently assembled superposition and network model')
prop('C12', 'g-functions evolve lawfully in time',
     'A g-function is positive and non-decreasing in time, its values do '
     'not depend on later times, it grows linearly from zero up to the '
     'threshold time, and evaluating it again at the same or other times, '
     'later or through another entry point, gives the same values. Options '
     'that only select what is stored or displayed, or the number format, '
     'do not change it beyond that format.',
     ['inputs', 'histories', 'configurations'], 'all fields, boundary '
     'conditions, time sequences and orders of evaluation',
     TESTS + 'they evaluate each configuration once at fixed times.',
     [('solver', BS + ':solve'),
      ('front end', GF + ':evaluate_g_function, __init__'),
      ('bore field', BF + ':evaluate_g_function')],
     technique='Hypothesis histories of evaluations with metamorphic '
     'relations')
prop('C13', 'Pipe models conserve energy and satisfy their equations',
     'For any pipe, flow, segments and wall temperatures, the heat drawn '
     'from the fluid equals its enthalpy change and the sum over segments, '
     'fluid temperatures satisfy the differential equations of the '
     'resistance network and the connections at both ends, and every '
     'prediction agrees with every other and with its coefficients.',
     ['inputs'], 'all pipe types, geometries, flows, segmentations and '
     'temperature profiles',
     TESTS + 'the equations must hold for any combination.',
     [('base pipe', PI + ':_BasePipe'), ('single', PI + ':SingleUTube'),
      ('multiple', PI + ':MultipleUTube'),
      ('independent', PI + ':IndependentMultipleUTube'),
      ('coaxial', PI + ':Coaxial')],
     technique='Hypothesis-generated pipes against an independently '
     'assembled solution of the fluid equations')
prop('C14', 'Pipes follow flow direction and magnitude',
     'Reversing the flow in a pipe that allows it is the same as exchanging '
     'its inlet and outlet legs; only the product of flow rate and heat '
     'capacity matters; temperatures tend to the wall temperature as flow '
     'vanishes and to the inlet temperature as it grows.',
     ['inputs'], 'all pipes, flows of either sign and fluids',
     TESTS + 'reversed flows are barely sampled.',
     [('flow direction', PI + ':_flow_direction, _continuity_condition_head'),
      ('model variables', PI + ':_update_model_variables')],
     technique='Hypothesis metamorphic relations')
prop('C15', 'Pipe results do not depend on earlier calls',
     'Whatever queries with whatever flows, fluids, segments and resistances '
     'came before, and whatever the caller later does to the arrays passed '
     'in, a pipe answers as a freshly built one would.',
     ['histories'], 'all sequences of queries and updates of resistances',
     TESTS + 'they build a new pipe for each query.',
     [('stored coefficients', PI + ':_set_stored_coefficients, '
       '_check_coefficients, _check_model_variables')],
     [('cache', 'coefficients of the last call per method',
       PI + ':_stored_coefficients')],
     technique='Hypothesis stateful histories against a fresh object')
prop('C16', 'Network predictions solve the connected system',
     'For any network of boreholes in series and parallel, each borehole '
     'receives the outlet of the one feeding it, the network outlet is the '
     'flow-weighted mix of its circuits, heat rates add up to the enthalpy '
     'change, and every prediction agrees with its coefficients.',
     ['inputs'], 'all connections, pipes, flow distributions, segments and '
     'temperatures',
     TESTS + 'trees of connections and unequal flows are unbounded.',
     [('coefficients', NW + ':coefficients_*'),
      ('connectivity', NW + ':_initialize_coefficients_connectivity, '
       '_find_inlets_outlets, _path_to_inlet'),
      ('mixing', NW + ':_coefficients_mixing')],
     technique='Hypothesis-generated networks against a borehole-by-borehole '
     'march along the flow')
prop('C17', 'Network results do not depend on earlier calls',
     'Whatever sequence of queries with whatever flows, fluids, temperatures '
     'and segments came before, and after thermal resistances of its pipes '
     'were updated, a network answers as a freshly built one would.',
     ['histories'], 'all sequences of queries',
     TESTS + 'they build a new network for each query.',
     [('stored coefficients', NW + ':_set_stored_coefficients, '
       '_check_coefficients, _check_mixing_coefficients')],
     [('cache', 'coefficients of the last call per method',
       NW + ':_stored_coefficients')],
     technique='Hypothesis stateful histories against a fresh object')
prop('C18', 'Reported borehole and network resistances match their definition',
     'The effective resistance of a borehole or network is the mean of inlet '
     'and outlet temperatures minus the uniform wall temperature, per unit '
     'heat rate and length, for any pipes, connections and flows, including '
     'reversed. The local resistance is that of all pipes at the same '
     'temperature, and no effective resistance is below it.',
     ['inputs', 'histories'], 'all pipes, networks, flows and fluids, after '
     'any earlier queries',
     TESTS + 'the definition must hold for every configuration.',
     [('borehole', PI + ':effective_borehole_thermal_resistance, '
       'local_borehole_thermal_resistance, borehole_thermal_resistance'),
      ('network', NW + ':network_thermal_resistance')],
     technique='Hypothesis-generated pipes and networks; resistance rebuilt '
     'from predicted temperatures and an independent solution')
prop('C19', 'Internal resistances solve conduction in the cross-section',
     'The delta-circuit resistances of any arrangement of pipes reproduce '
     'steady conduction between pipes and borehole wall in the two-material '
     'plane, converging with the order of the multipoles. They follow the '
     'symmetries of the arrangement, give reciprocal heat flows and do not '
     'depend on earlier evaluations.',
     ['inputs', 'histories'], 'all pipe arrangements, conductivities, '
     'resistances and orders; any sequence of evaluations',
     TESTS + 'complex-valued series and a hidden cache can be wrong away '
     'from the stored cases.',
     [('resistances', PI + ':thermal_resistances, '
       '_compare_thermal_resistances_inputs'),
      ('multipoles', PI + ':multipole, _F_mk')],
     [('cache', 'last arguments and results', PI + ':thermal_resistances')],
     technique='Hypothesis-generated arrangements against an independent '
     'collocation solution, plus symmetry relations and histories')
prop('C20', 'Fluid-side resistances follow their correlations',
     'Friction factors, convective coefficients and the resistances built '
     'from them follow the documented laminar, transition and turbulent '
     'relations for any flow, fluid and pipe, are continuous where the '
     'documentation says so, and combine into fluid-to-pipe and '
     'fluid-to-fluid resistances consistently for every pipe type and flow '
     'direction.',
     ['inputs'], 'all flows, fluids, roughnesses, radii and pipe types',
     TESTS + 'regimes and pipe types multiply.',
     [('friction', PI + ':fluid_friction_factor_circular_pipe'),
      ('convection', PI + ':convective_heat_transfer_coefficient_*, '
       '_Nusselt_number_turbulent_flow'),
      ('conduction', PI + ':conduction_thermal_resistance_circular_pipe'),
      ('combined', PI + ':fluid_to_pipe_thermal_resistance, '
       'fluid_to_fluid_thermal_resistance')],
     technique='Hypothesis-generated flows against an independent '
     'implementation of the correlations')
prop('C21', 'Fluid properties are consistent for every mixture',
     'For any supported fluid, concentration and temperature, properties are '
     'those of the underlying correlations, positive, continuous, mutually '
     'consistent (kinematic viscosity, volumetric heat capacity, Prandtl '
     'number) and equal between stored values, methods and tables filled '
     'from them.',
     ['inputs'], 'all fluids, concentrations and temperatures in range',
     TESTS + 'they sample single temperatures.',
     [('fluid', ME + ':Fluid')],
     technique='Hypothesis-generated mixtures against the underlying '
     'correlations and identities')
prop('C22', 'Field layouts have the documented geometry',
     'Each layout places the documented number of boreholes at the '
     'documented spacing and pattern for any counts and spacings, with all '
     'dimensions as given, tilted boreholes facing away from the given or '
     'default origin, and is the same through old and new interfaces; the '
     'names of the compass points give their directions.',
     ['inputs'], 'all counts, spacings, dimensions, tilts and origins',
     TESTS + 'counts, degenerate layouts and origins are unbounded.',
     [('layouts', BF + ':rectangle_field, staggered_rectangle_field, '
       'dense_rectangle_field, L_shaped_field, U_shaped_field, '
       'box_shaped_field, circle_field'),
      ('deprecated layouts', BO + ':rectangle_field and others'),
      ('compass', 'pygfunction/utilities.py:cardinal_point')],
     technique='Hypothesis-generated layouts against a geometric '
     'specification')
prop('C23', 'Bore fields survive conversions and behave as containers',
     'Converting a field to boreholes or to a file and back gives the same '
     'field; indexing, slicing, length, addition and comparison behave as '
     'for the sequence of its boreholes, and all have consistent results '
     'when combined.',
     ['inputs', 'histories'], 'all fields and sequences of operations',
     TESTS + 'operations compose without bound.',
     [('container', BF + ':__getitem__, __eq__, __add__, __radd__'),
      ('conversions', BF + ':to_boreholes, from_boreholes, to_file, '
       'from_file'),
      ('boreholes', BO + ':Borehole.__add__, field_from_file')],
     technique='Hypothesis stateful operations against a list model, and '
     'round trips')
prop('C24', 'Duplicates are found and removed',
     'Two boreholes are reported as duplicates exactly when closer than '
     'their radius, in order and once each; removing duplicates leaves a '
     'field without any, keeping the first of each and the order of the '
     'rest.',
     ['inputs'], 'all fields, with any clusters of coincident boreholes',
     TESTS + 'clusters of three or more and chains vary.',
     [('duplicates', BO + ':find_duplicates, remove_duplicates')],
     technique='Hypothesis-generated fields against a quadratic '
     'specification')
prop('C25', 'Segments divide boreholes exactly',
     'Segment ratios are positive, symmetric, add up to one and expand as '
     'documented for any number of segments and end length. Segments of a '
     'borehole cover it end to end with the lengths asked for, at the right '
     'depth and position for any tilt, and edges and distances are '
     'consistent with them.',
     ['inputs'], 'all numbers of segments, end lengths, ratios and '
     'boreholes',
     TESTS + 'parities and limits of end lengths differ.',
     [('ratios', UT + ':segment_ratios'),
      ('segments', BO + ':Borehole.segments, _segment_edges, '
       '_segment_midpoints, distance, position'),
      ('equivalent', BO + ':_EquivalentBorehole.segments')],
     technique='Hypothesis-generated boreholes against geometric '
     'specification')
prop('C26', 'Time grids cover the simulation as documented',
     'Each time grid starts with the first step, increases strictly, '
     'reaches the maximum time, and its steps follow the documented rule '
     '(doubling per level, constant then doubling, or geometric).',
     ['inputs'], 'all steps, durations and cell parameters',
     'No existing test covers these grids; solvers for ratios and rounding '
     'of counts fail at particular ratios of duration to step.',
     [('grids', UT + ':time_ClaessonJaved, time_MarcottePasquier, '
       'time_geometric')],
     technique='Hypothesis-generated parameters against the rule of each '
     'grid')
prop('C27', 'Invalid configurations are rejected',
     'Overlapping or protruding pipes, non-positive dimensions, impossible '
     'connections, wrong numbers of pipes, flows or segments, and '
     'unsupported options are refused with an exception; valid '
     'neighbouring configurations are accepted.',
     ['inputs', 'configurations'], 'all single defects injected in valid '
     'configurations',
     TESTS + 'few invalid inputs are sampled.',
     [('pipes', PI + ':_check_geometry'),
      ('networks', NW + ':_verify_bore_connectivity, _format_inputs'),
      ('g-function', GF + ':_check_inputs'), ('solver', BS + ':_check_inputs'),
      ('equivalent', EQ + ':_check_solver_specific_inputs'),
      ('bore field', BF + ':Borefield.__init__')],
     technique='Hypothesis fault injection on valid configurations')
prop('C28', 'Calculations leave their inputs as they were',
     'No calculation changes the boreholes, fields, pipes, networks, options '
     'or arrays it is given; overwriting these afterwards does not change '
     'results already obtained, and overwriting returned arrays does not '
     'change later answers.',
     ['inputs', 'histories'], 'all public calculations and inputs',
     TESTS + 'they do not look at inputs after calls.',
     [('g-function', GF + ':gFunction'), ('solver', BS + ':_BaseSolver'),
      ('pipes', PI + ':thermal_resistances, multipole'),
      ('line sources', HT + ':finite_line_source'),
      ('load aggregation', LA + ':set_current_load')],
     technique='Hypothesis-generated calls with snapshots of every input')
prop('C29', 'Reported profiles and figures show the computed solution',
     'Every figure of a g-function, of a field or of a pipe shows the stored '
     'solution: heat rates and temperatures by borehole, along the depth and '
     'in time, for any number of flow rates, and figures can be drawn for '
     'any configuration.',
     ['inputs', 'configurations'], 'all boundary conditions, '
     'discretisations, selected boreholes and times',
     'No existing test looks at what is plotted.',
     [('figures', GF + ':visualize_*, _heat_extraction_rates, '
       '_heat_extraction_rate_profiles, _temperatures, '
       '_temperature_profiles'),
      ('fields', BF + ':visualize_field'), ('pipes', PI + ':visualize_pipes')],
     technique='Hypothesis-generated solutions; plotted data compared with '
     'the stored solution')
prop('C30', 'Short-cut constructors equal building the parts by hand',
     'Building a network or a g-function from plain parameters gives the '
     'same results as building the fluid, resistances, pipes and network '
     'explicitly, for any pipe type, fluid and connection.',
     ['inputs'], 'all pipe types, fluids, temperatures and fields',
     TESTS + 'parameters can be dropped or crossed unnoticed when defaults '
     'agree.',
     [('network', NW + ':Network.from_static_params'),
      ('g-function', GF + ':gFunction.from_static_params'),
      ('deprecated', GF + ':uniform_heat_extraction, uniform_temperature, '
       'equal_inlet_temperature, mixed_inlet_temperature')],
     technique='Hypothesis differential testing against explicit '
     'construction')


def main():
    have = {p.name[:3].upper() for p in (V / 'checks').glob('c[0-9][0-9]_*.py')}
    with open(V / 'properties.jsonl', 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [],
         'not_applicable': [],
         'notes': 'Property-based testing throughout: python3 run.py <ID> '
                  '--tier quick|thorough. VERIF_SEED seeds every draw.'}
    for p, t, n in P:
        i = p['id']
        if i in have:
            m['checks'].append({
                'property': i,
                'quick_cmd': f'python3 run.py {i} --tier quick',
                'thorough_cmd': f'python3 run.py {i} --tier thorough',
                'evidence_file': f'evidence/{i}.json',
                'technique': 'property-based testing: ' + t,
                'level': 'exploration',
                'level_note': n or (
                    'Holds on every generated case of the run; failures are '
                    'shrunk to a replay file. Trusts the oracle described '
                    'in DESIGN.md and numpy/scipy; absence is not proved.')})
        else:
            m['not_applicable'].append({
                'property': i, 'reason': 'check still being built'})
    (V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')


if __name__ == '__main__':
    main()
