"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe,
         hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {
                  'files': files,
                  'state': [dict(zip(('name', 'meaning', 'where'), s))
                            for s in state],
                  'mechanism': [dict(zip(('name', 'where'), m))
                                for m in mech],
                  'observe_at': observe, 'hook_needed': hook}})


PIPES = 'pygfunction/pipes.py'
NETS = 'pygfunction/networks.py'
AGG = 'pygfunction/load_aggregation.py'
GF = 'pygfunction/gfunction.py'
BF = 'pygfunction/borefield.py'

prop('C01', 'A pipe answers a query the same whatever was asked of it before',
     'Any temperature, heat extraction rate, coefficient or thermal '
     'resistance obtained from a pipe object (single, multiple, independent '
     'or coaxial U-tube) equals what a newly built identical pipe returns '
     'for the same arguments. This holds after any sequence of earlier '
     'queries with other flow rates, flow directions, heat capacities, '
     'numbers or ratios of segments, after rejected calls, and after updates '
     'of the thermal resistances (then: identical to a pipe built with the '
     'new resistances). A call that a new pipe rejects is not accepted '
     'because of the history.',
     ['histories', 'inputs', 'configurations'],
     'all finite sequences of queries, resistance updates and rejected calls '
     'on one pipe of any class and configuration, and all arguments',
     'The tests evaluate each coefficient once on a fresh object; the stored '
     'coefficients, the flow-reversal bookkeeping and the 1e-6 matching '
     'tolerance only matter on the second and later calls, whose order and '
     'arguments are unbounded.',
     [PIPES],
     [('stored coefficients and their keys', 'last answer of each method '
       'with the arguments it was computed for',
       'pipes.py:_BasePipe._initialize_stored_coefficients'),
      ('model variables', 'flow, heat capacity and derived conductances of '
       'the last call', 'pipes.py:*._update_model_variables'),
      ('pipe ordering and delta-circuit resistances',
       'depend on the direction of flow', 'pipes.py:*._flow_direction')],
     [('_check_coefficients / _get_stored_coefficients',
       'pipes.py:_BasePipe'),
      ('_check_model_variables', 'pipes.py:_BasePipe'),
      ('_flow_direction', 'pipes.py:SingleUTube, MultipleUTube, '
       'IndependentMultipleUTube')],
     ['return values of every public method of the pipe classes'])

prop('C02', 'A network answers a query the same whatever was asked before',
     'Any inlet, outlet or network temperature, heat extraction rate, '
     'coefficient or effective thermal resistance obtained from a network of '
     'boreholes equals what a newly built identical network returns for the '
     'same arguments. This holds after any sequence of queries with other '
     'total or per-circuit flow rates, flow directions, heat capacities and '
     'discretisations, after rejected calls, and after direct use or '
     'resistance updates of the pipes the network is made of.',
     ['histories', 'inputs', 'configurations'],
     'all finite sequences of queries on a network, queries and resistance '
     'updates on its pipes, and rejected calls; all connectivities',
     'Tests call each coefficient on fresh networks with one or two flow '
     'rates; stale mixing coefficients, stale pipe resistances and wrong '
     'matches between a total flow and a list of flows need particular '
     'sequences.',
     [NETS, PIPES],
     [('stored coefficients of the network', 'last answer per method',
       'networks.py:Network._initialize_stored_coefficients'),
      ('mixing coefficients', 'flow fractions of the circuits for the last '
       'flow rates', 'networks.py:Network._coefficients_mixing'),
      ('state of the pipes', 'shared with the caller',
       'networks.py:Network.p')],
     [('_check_coefficients, _check_mixing_coefficients',
       'networks.py:Network'),
      ('_format_inputs', 'networks.py:Network')],
     ['return values of every public method of Network and of '
      'network_thermal_resistance'])

prop('C03', 'Objects that share nothing never influence each other',
     'When several pipes, networks, load aggregation schemes, g-function '
     'calculations and stand-alone functions are used in any interleaved '
     'order in one program, each answer equals the one obtained when that '
     'object\'s calls run alone in a fresh process. In particular results '
     'remembered between calls of the thermal resistance and multipole '
     'calculations never leak into a calculation with other inputs, and '
     'process-wide settings (floating-point error handling, random state, '
     'warning filters) are as they were.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings, step by step, of independent scripts over unrelated '
     'objects, with near-identical geometries and materials',
     'The coupling goes through module-level memory and process-wide '
     'settings, which tests only meet in the fixed order of the test files.',
     [PIPES, NETS, AGG, GF, 'pygfunction/heat_transfer.py',
      'pygfunction/utilities.py', 'pygfunction/media.py', BF],
     [('memo of delta-circuit resistances', 'inputs and result of the last '
       'calculation, for the whole process',
       'pipes.py:thermal_resistances (function attributes)'),
      ('class-level state and default arguments', 'shared by all objects',
       'all modules')],
     [('_compare_thermal_resistances_inputs', 'pipes.py')],
     ['return values of every party in the simulation'])

prop('C04', 'Concurrent threads get the results they would get alone',
     'When several threads of one process each build and use their own '
     'boreholes, pipes, networks, load aggregation schemes and g-functions, '
     'every answer a thread obtains equals the answer obtained when that '
     'thread runs alone in a fresh process, for every interleaving of the '
     'threads. No interleaving makes a valid call raise or block for ever.',
     ['schedules', 'inputs'],
     'all context switches between 2-4 threads at any bytecode boundary of '
     'the package, all scripts of the threads',
     'No test starts a thread; the shared memo of thermal resistances can '
     'only be torn by a switch between a comparison and a read, or between '
     'two writes.',
     [PIPES, NETS, AGG, GF],
     [('memo of delta-circuit resistances', 'shared by all threads',
       'pipes.py:thermal_resistances')],
     [('single-assignment replacement of the remembered entry',
       'pipes.py:thermal_resistances')],
     ['return values recorded by every simulated thread'])

prop('C05', 'An interrupted or failed evaluation leaves no trace',
     'If an evaluation on a pipe or a network, or a stand-alone thermal '
     'resistance calculation, is stopped at any instant (keyboard interrupt, '
     'failed allocation, failing linear algebra routine), every later '
     'evaluation on that object and on others returns what it would have '
     'returned had the stopped call never been made. If an update of the '
     'thermal resistances is stopped, the pipe afterwards behaves in every '
     'respect as either the old pipe or the completely updated one, and '
     'repeating the update completes it.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'all instants of interruption inside any query or resistance update, '
     'all histories before and after, up to several faults per history',
     'Tests never interrupt a call; torn pairs of key and value and half-'
     'reversed flow directions are only visible afterwards.',
     [PIPES, NETS],
     [('stored coefficients and keys', 'must change together',
       'pipes.py:_BasePipe._set_stored_coefficients; '
       'networks.py:Network._set_stored_coefficients'),
      ('flow direction, pipe order, resistances', 'must change together',
       'pipes.py:*._flow_direction, *._update_model_variables'),
      ('memo of delta-circuit resistances', 'inputs and result must change '
       'together', 'pipes.py:thermal_resistances')],
     [('order of assignments in the update of stored state',
       'pipes.py, networks.py')],
     ['answers of every call made after the faulted one'])

prop('C06', 'Callers and the library never share mutable data by accident',
     'No evaluation modifies the arrays, lists, boreholes, networks or option '
     'dictionaries passed to it. Changing in place an array or list after passing it as an argument, or '
     'an array that was returned, never changes what any object answers '
     'later to the same question, nor any other array returned earlier.',
     ['histories', 'inputs'],
     'all sequences of calls on pipes, networks, load aggregation schemes, '
     'g-functions and bore fields in which the caller overwrites its '
     'argument buffers and the returned arrays between calls',
     'Tests use literals and fresh arrays; buffer re-use in a simulation '
     'loop (the usual way to avoid allocations) is never exercised.',
     [PIPES, NETS, AGG, GF, BF, 'pygfunction/solvers/_base_solver.py',
      'pygfunction/solvers/equivalent.py'],
     [('stored keys and values', 'kept between calls',
       'pipes.py, networks.py stored coefficients'),
      ('internal load and response arrays', 'kept between time steps',
       'load_aggregation.py:initialize, get_times_for_simulation')],
     [('copies on store and on return', 'pipes.py, networks.py, '
       'load_aggregation.py, gfunction.py')],
     ['arguments before and after each call; answers to repeated questions'])

prop('C07', 'Energy is conserved at every step of an operating history',
     'At every step of an operating history (changing inlet temperature, '
     'wall temperatures, flow rates, flow direction, heat capacity, '
     'discretisation), the heat extracted by each borehole is the sum over '
     'its wall segments, equals the fluid-side balance flow x heat capacity '
     'x (outlet - inlet), and the sum over boreholes equals the heat '
     'extracted by the network from its own inlet and outlet temperatures. '
     'Each borehole in series is fed the outlet temperature of the borehole '
     'upstream of it, circuits in parallel are fed the network inlet '
     'temperature and mix according to their flow rates. With walls and '
     'inlet at one temperature nothing is extracted; fluid temperature '
     'profiles join the inlet and outlet temperatures; effective resistances '
     'relate mean fluid to wall temperature for the extracted heat. Cutting '
     'a segment in two parts with the same wall temperature changes nothing, '
     'and a single wall temperature may be given as a number.',
     ['histories', 'inputs', 'configurations'],
     'all operating histories of pipes of any class and of networks of any '
     'connectivity, including reversal of flow and unequal circuit flows',
     'Tests compare a handful of single evaluations against recorded '
     'numbers; they hold no balance, use equal circuit flows only and never '
     'a history.',
     [PIPES, NETS],
     [('flow direction and circuit flows', 'state of the running system',
       'pipes.py:*._flow_direction, networks.py:Network._format_inputs')],
     [('coefficients_*', 'pipes.py, networks.py'),
      ('_coefficients_mixing', 'networks.py:Network')],
     ['get_* methods, coefficients_* methods, effective resistances'])

prop('C08', 'Inverse control: prescribed heat yields exactly that heat',
     'At every step of a controlled operating history, feeding back the '
     'inlet temperature that a pipe or network returns for a prescribed '
     'total heat extraction rate makes the pipe or network extract exactly '
     'that rate, for all flow rates, flow directions, wall temperature '
     'profiles and discretisations. The outlet temperature obtained '
     'then differs from the inlet by the prescribed rate over flow x heat '
     'capacity, and prescribing the rate obtained from a given inlet '
     'temperature returns that inlet temperature. Cutting a segment in two '
     'parts with the same wall temperature does not change the inlet '
     'temperature needed.',
     ['histories', 'inputs', 'configurations'],
     'all control histories alternating between prescribed inlet '
     'temperature and prescribed heat on any pipe and network',
     'Tests check recorded numbers for single calls of each direction, never '
     'that the two directions are inverse of each other, nor alternate.',
     [PIPES, NETS],
     [('stored coefficients of the forward and inverse problems',
       'kept between steps', 'pipes.py, networks.py')],
     [('coefficients_inlet_temperature, '
       'coefficients_network_inlet_temperature', 'pipes.py, networks.py')],
     ['get_inlet_temperature / get_network_inlet_temperature against '
      'get_total_heat_extraction_rate / get_network_heat_extraction_rate'])

for pid, name, doc, where in (
        ('C09', 'Claesson-Javed', 'every load is carried through cells of '
         'doubling width by the documented fractional shift',
         'ClaessonJaved'),
        ('C10', 'MLAA', 'the most recent loads are kept individually and '
         'older ones in up to four blocks holding their mean', 'MLAA'),
        ('C11', 'Liu', 'loads move to coarser cells in groups, holding '
         'their mean, after the documented waiting periods', 'Liu')):
    prop(pid, f'{name} load aggregation follows its scheme and loses no '
         'energy',
         f'At every time step of any load history the {name} scheme returns '
         'the temporal superposition of exactly the loads given so far, '
         f'aggregated as its scheme prescribes ({doc}), for one or several '
         'heat sources. The aggregation creates and loses no energy '
         + ('(it leaves only through the far end of the last cell), '
            if pid == 'C09' else 'within the simulation period, ')
         + 'loads not yet aggregated are '
         'superposed exactly, and '
         'each source responds to each load with the response factors '
         'between these two sources. Setting the load of a step twice keeps '
         'the last one, and evaluating temperatures any number of times '
         'changes nothing.',
         ['histories', 'inputs', 'configurations'],
         'all load histories (with repeated, revised and skipped '
         'evaluations), all cell layouts, time steps, durations and numbers '
         'of sources',
         'Tests run one load profile with default cells and compare the '
         'final temperature with a 2 % tolerance or so; the state after '
         'every aggregation event of other layouts and multiple sources is '
         'never examined.',
         [AGG, 'pygfunction/utilities.py'],
         [('cell loads', 'aggregated load history',
           f'load_aggregation.py:{where}.next_time_step')],
         [('next_time_step, set_current_load, temporal_superposition',
           f'load_aggregation.py:{where}')],
         ['get_times_for_simulation, temporal_superposition after every '
          'operation'])

prop('C12', 'Revised, rejected or aborted loads leave no trace in aggregation',
     'In all load aggregation schemes, what-if iterations within a time step '
     '(setting trial loads and evaluating temperatures any number of times, '
     'in any order), calls rejected for wrong arguments, and evaluations '
     'stopped by an interrupt or a failing routine have no influence on '
     'anything returned later. Later answers depend only on the last load '
     'accepted at each time step.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'all histories with trial loads, rejected loads and interrupted '
     'evaluations at any point, for the three schemes',
     'Tests set each load once and never see an exception.',
     [AGG],
     [('current load', 'may be overwritten within a time step',
       'load_aggregation.py:*.set_current_load')],
     [('temporal_superposition does not modify the cells',
       'load_aggregation.py')],
     ['temporal_superposition in all later steps'])

prop('C13', 'A g-function evaluation is independent of earlier evaluations',
     'Evaluating a g-function object at some times returns, and stores with '
     'matching times, what a newly built object returns for these times: '
     'whatever times were evaluated before, whatever was plotted, whether '
     'the network object was also used for other calculations in between, '
     'whether evaluation '
     'failed before, and however many other g-function objects share the '
     'boreholes. Values at a time do not depend on which other '
     'times are requested, as long as the grid up to that time is the same. '
     'Evaluations leave the boreholes, the pipes and the flow conditions of '
     'the network as they were, and the function interface '
     '(uniform_heat_extraction, uniform_temperature, equal_inlet_temperature, '
     'mixed_inlet_temperature) returns the same values as an object with the '
     'same arguments, whatever flow conditions the network itself holds.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of evaluations, plots, uses of the same network and '
     'creations of other g-function objects, for all methods and boundary '
     'conditions',
     'Tests evaluate each object once, on construction.',
     [GF, 'pygfunction/solvers/_base_solver.py',
      'pygfunction/solvers/detailed.py',
      'pygfunction/solvers/similarities.py',
      'pygfunction/solvers/equivalent.py', NETS],
     [('solver and its stored profiles', 'kept between evaluations',
       'gfunction.py:gFunction.solver; solvers/_base_solver.py'),
      ('the network used for the inlet conditions', 'shared with the caller',
       'gfunction.py:gFunction.network')],
     [('evaluate_g_function', 'gfunction.py; solvers/_base_solver.py:solve')],
     ['returned and stored g-function, profile plots'])

prop('C14', 'Interrupts, clocks and consoles never change a g-function',
     'The values of a g-function do not depend on the wall clock (jumps, '
     'stalls, clock running backwards), on progress messages being on or '
     'off, nor on the console. If an evaluation is stopped at any '
     'instant, the object either keeps its previous times and values '
     'together or holds the complete new ones, boreholes and networks are '
     'as before, and evaluating again gives the undisturbed result.',
     ['crash_points', 'fault_sequences', 'configurations', 'histories'],
     'all instants of interruption, failing numerical routines, console '
     'failures at any message, clock behaviours, for all solvers',
     'Tests use a real, well-behaved clock, a working console and never '
     'interrupt.',
     [GF, 'pygfunction/solvers/_base_solver.py',
      'pygfunction/solvers/similarities.py',
      'pygfunction/solvers/equivalent.py',
      'pygfunction/solvers/detailed.py'],
     [('times and values of the object', 'published together',
       'gfunction.py:gFunction.evaluate_g_function'),
      ('elapsed time', 'read for messages only',
       'solvers/_base_solver.py:solve')],
     [('evaluate_g_function', 'gfunction.py'),
      ('solve', 'solvers/_base_solver.py')],
     ['time and gFunc of the object, answers of network and boreholes'])

prop('C15', 'A bore field file that was written without error reloads exactly',
     'If saving a bore field (or a list of boreholes) to a file returns '
     'without error, loading the file gives the same field: same number, '
     'order, lengths, depths, radii, positions, tilts and orientations, '
     'all digits included. If any write, flush or close fails (full '
     'disk, I/O error), an error is raised rather than success reported; '
     'the object in memory is unchanged, no file is left open, and saving '
     'again afterwards succeeds. Loading either fails or returns the '
     'saved field, whatever read errors or short reads occur.',
     ['fault_sequences', 'crash_points', 'inputs', 'histories'],
     'all fields, all sequences of saves and loads, all positions of short '
     'writes, ENOSPC, EIO, failing close, short and failing reads',
     'Tests write and read one or two files on a healthy disk.',
     [BF, 'pygfunction/boreholes.py'],
     [('the file', 'durable state', 'borefield.py:to_file')],
     [('to_file / from_file', 'borefield.py'),
      ('field_from_file', 'boreholes.py')],
     ['returned fields, exceptions, open file handles, the file'])

prop('C16', 'A simulation restored from a checkpoint continues identically',
     'Pipes, networks, load aggregation schemes, boreholes, bore fields and '
     'g-functions saved with pickle at any point of their history and '
     'restored in a new process, or forked with deepcopy, continue '
     'with the answers the uninterrupted object gives. After a fork the two '
     'copies are independent: nothing done to one changes the answers '
     'of the other.',
     ['crash_points', 'histories', 'inputs'],
     'all points of a history at which the process is killed and restarted '
     'from its last checkpoint, or forked',
     'No test pickles or copies an object.',
     [PIPES, NETS, AGG, GF, BF, 'pygfunction/boreholes.py'],
     [('all attributes of the objects', 'durable state of a checkpoint',
       'all classes')],
     [('attributes are plain data, with no reference to process-local state',
       'all classes')],
     ['answers of original, restored and forked objects'])

prop('C17', 'Boreholes and bore fields answer as they are now',
     'After any history of constructing, editing (lengths, depths, radii and '
     'positions assigned through the public attributes), indexing, slicing, '
     'adding, converting, copying and de-duplicating boreholes, lists of '
     'boreholes and bore fields, each of them holds exactly the values its '
     'history gives it, and everything derived from it (coordinates, number, '
     'segments, distances, equality, duplicates, line source responses, '
     'g-functions, plots) is what newly built objects with these values '
     'give. Objects derived from one another by conversion or composition '
     'into bore fields do not change when the other one is edited. Calls '
     'that are rejected or stopped at any instant change nothing, and '
     'repeating a stopped call succeeds.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of edits, compositions, questions and interrupted calls',
     'Tests build a field, ask it one question and drop it; none edits a '
     'field or follows what was derived from it.',
     [BF, 'pygfunction/boreholes.py', GF],
     [('H, D, r_b, x, y of boreholes and fields', 'edited by users between '
       'questions', 'boreholes.py:Borehole')],
     [('fields built from boreholes are independent of them',
       'borefield.py:from_boreholes'),
      ('boreholes made from a field are independent of it',
       'borefield.py:to_boreholes')],
     ['attributes, lengths, returned objects, g-functions, plots'])

prop('C18', 'A coupled simulation of a whole system follows one trajectory',
     'When a ground-source system (line source or g-function response '
     'factors, load aggregation, network of pipes, prescribed heat or inlet '
     'temperature, iterations within each time step) is simulated over time, '
     'the trajectory of loads, fluid temperatures, heat extraction rates and '
     'borehole wall temperatures is that of the same simulation in which '
     'every time step is made with newly built objects from the history of '
     'loads. Interrupted and repeated calls, rejected calls, inspections of '
     'the network or its pipes, trial loads, forks, crashes followed by a '
     'restart from a checkpoint, other systems simulated in the same '
     'process, and overwriting of returned arrays do not change it. At every '
     'step the heat of the segments, of the fluid and of the network agree, '
     'and prescribed heat is extracted exactly. Once disturbances stop, every '
     'simulation runs to its end.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'all operating histories, disturbances, crash points',
     'Tests exercise the components one at a time; no test couples them over '
     'time steps, and none disturbs or restarts a simulation.',
     [NETS, PIPES, AGG, GF, 'pygfunction/heat_transfer.py'],
     [('stored coefficients of network and pipes', 'reused between steps',
       'networks.py, pipes.py'),
      ('aggregated loads', 'the memory of the ground',
       'load_aggregation.py')],
     [('get_network_inlet_temperature and others', 'networks.py'),
      ('temporal_superposition', 'load_aggregation.py')],
     ['loads, temperatures and heat extraction rates of every step'])

# --- pure functions: listed, not claimed -----------------------------------
prop('C20', 'The finite line source solution is accurate and reciprocal',
     'The thermal response of one borehole to another satisfies reciprocity '
     'and superposition over segments, is the limit of its integral, and its '
     'approximations stay within their stated error.',
     ['inputs'], 'all times, lengths, depths and positions',
     'Sampled at a few points only.',
     ['pygfunction/heat_transfer.py'], [],
     [('finite_line_source', 'heat_transfer.py')], ['returned factors'])
prop('C21', 'g-function solvers agree, increase with time and reach steady state',
     'For the same field and boundary condition the detailed, similarities '
     'and equivalent methods agree within their stated error; g-functions '
     'do not decrease with time.',
     ['inputs', 'configurations'], 'all fields and times',
     'Sampled on a few fields.',
     ['pygfunction/solvers/_base_solver.py'], [],
     [('solve', 'solvers/_base_solver.py')], ['gFunc'])
prop('C22', 'Field constructors produce the documented layouts',
     'Each field constructor returns the documented number of boreholes at '
     'the documented spacing.',
     ['inputs'], 'all counts and spacings', 'Sampled on a few shapes.',
     [BF, 'pygfunction/boreholes.py'], [],
     [('rectangle_field and others', 'borefield.py')], ['positions'])
prop('C23', 'Segment ratios and time vectors are well-formed',
     'Segment ratios are positive, symmetrical and sum to one; time vectors '
     'increase and reach the requested maximum.',
     ['inputs'], 'all numbers of segments, steps and maxima',
     'Sampled on a few values.', ['pygfunction/utilities.py'], [],
     [('segment_ratios, time_*', 'utilities.py')], ['returned arrays'])
prop('C24', 'Fluid properties and heat transfer correlations are consistent',
     'Fluid properties are positive and consistent with each other; '
     'convection and friction correlations are continuous and increase as '
     'documented.',
     ['inputs'], 'all fluids, temperatures and flow rates',
     'Sampled on a few values.', ['pygfunction/media.py', PIPES], [],
     [('Fluid', 'media.py')], ['returned values'])
prop('C25', 'Multipole thermal resistances solve the conduction problem',
     'The delta-circuit resistances are symmetrical, converge with the '
     'number of multipoles and reproduce the temperatures of the '
     'two-dimensional conduction problem.',
     ['inputs'], 'all pipe layouts and conductivities',
     'Sampled on a few layouts.', [PIPES], [],
     [('multipole, thermal_resistances', 'pipes.py')], ['returned values'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
