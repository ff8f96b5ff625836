"""The properties, and how each is claimed."""

TECH = 'TLA+ spec model-checked with TLC; TLC behaviours replayed into the code; recorded traces validated by TLC'


def Q(over, text):
    return dict(over=over, text=text)


PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), technique=TECH, note=''):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=Q(over, qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=None),
        technique=technique, level_note=note))


NOT_APPLICABLE = []
C = 'trunk/SUAVE/Core/'

P('C01', 'Data containers stay faithful ordered trees under any operation history',
  'After any sequence of attribute and item assignments, deletions, appends, recursive updates, array merges, '
  'deep path reads and writes and copies, attribute access, item access, membership, keys, values, items and iteration '
  'of a data container all agree with each other and with that sequence, in insertion order. A recursive update changes '
  'exactly the entries it names (hidden names excepted), never its argument; a failing operation changes nothing; a copy '
  'shares nothing with its original. Components appended under a name already taken are all kept, each under a fresh name '
  'that its tag reflects.',
  ['histories', 'inputs'], 'every sequence of container operations over nested data and component containers',
  'The repository has no container tests; missions exercise a few operations each, never their interleavings, name '
  'collisions, hidden names or aliasing.',
  [C + 'Data.py', C + 'Container.py', C + 'Arrays.py'],
  [('attribute/item unification', C + 'Data.py __getattribute__/__setattr__/__delattr__'),
   ('recursive merge', C + 'Data.py update/append_or_update/do_recursive'),
   ('tag uniqueness', C + 'Container.py append')],
  [('entries', 'ordered name -> value tree', 'the dict underlying Data')],
  ['return of every public container method'],
  note='Exhaustive for short histories over a small alphabet in the spec; every 2-operation history and random long '
       'histories replayed/validated against the real classes. Trusts TLC and the projection of real objects.')

P('C02', 'Ordered containers keep order, position access and copies under any history',
  'An ordered container (the base of processes, missions and wing segments) presents its entries in the order in which '
  'they were first inserted, whatever mixture of assignment, re-assignment, deletion, append, extend, clear, nested update, '
  'deep path access, copy or pickling is applied. Positional access, name access, membership, keys, values, items and '
  'length always agree; re-assignment keeps an entry\'s position, and appending under a name already taken is refused '
  'instead of replacing what is there. Copies hold the same entries in the same order and share nothing.',
  ['histories', 'inputs'], 'every sequence of operations on nested ordered containers',
  'No repository test asserts order or collisions; a lost or swapped step still runs in the scripts.',
  [C + 'DataOrdered.py', C + 'ContainerOrdered.py'],
  [('linked order map', C + 'DataOrdered.py __setattr__/__delattr__/__iter_basic__'),
   ('reconstruction', C + 'DataOrdered.py __reduce__/_reconstructor'),
   ('duplicate refusal', C + 'DataOrdered.py append')],
  [('entries', 'ordered name -> value list', '_root/_map and __dict__')],
  ['return of every public container method'],
  note='As C01, for the ordered container classes.')


P('C03', 'Packing into arrays and unpacking never loses, reorders or mixes values',
  'Packing any nested container (plain or ordered) yields exactly its numeric values, entry by entry in insertion order, '
  'depth first (matrices column by column in vector form; as columns in array form, keeping only entries with as many rows '
  'as the first); other values, 3-d arrays and anything non-numeric are skipped. Unpacking a vector or matrix of that size '
  'writes each value back to exactly the place packing took it from, keeps every shape, touches nothing else, and packing '
  'again gives that vector; so pack-unpack and unpack-pack are identities. A wrong-sized vector is reported, and packing '
  'never changes the container.',
  ['inputs', 'histories'], 'every nesting, shape and order of numeric and other entries, every vector, any sequence of packs, '
  'unpacks and edits',
  'The solvers move all unknowns and residuals through this pair, but scripts use a handful of layouts, where a swap of two '
  'equal-sized blocks or of row and column order shows only as a slightly different answer.',
  [C + 'Data.py', C + 'DataOrdered.py', C + 'Arrays.py'],
  [('pack', C + 'Data.py pack_array'), ('unpack', C + 'Data.py unpack_array')],
  [('tree of numbers', 'nested numeric entries with shapes', 'container entries')],
  ['return of pack_array', 'entries after unpack_array'],
  note='All trees to the MC bound enumerated and replayed; random longer trees and histories validated by TLC.')

P('C04', 'Configurations are exactly the base plus their own stored differences',
  'A configuration starts as an independent copy of its base: writing into it never changes the base or a sibling and vice '
  'versa. Storing the difference records exactly the entries that differ from the base (including dropped entries, and '
  'values of a different type or shape), pulling the base yields exactly the current base overlaid with the stored '
  'difference, also along chains of configurations and after the base changed or lost entries, and pulling twice changes '
  'nothing more. Stored differences and configurations share no storage with base or each other, and configurations in a '
  'container keep unique tags.',
  ['histories', 'inputs'], 'every sequence of edits to base and configurations, store_diff, pull_base, copies and appends',
  'Scripts finalise and pull once after simple edits; sharing or a lost difference needs an edit, a pull and a second edit.',
  [C + 'Diffed_Data.py', C + 'Data.py', 'trunk/SUAVE/Components/Configs/Config.py', 'trunk/SUAVE/Vehicle.py'],
  [('difference', C + 'Diffed_Data.py diff'), ('overlay', C + 'Diffed_Data.py pull_base'),
   ('storing', C + 'Diffed_Data.py store_diff')],
  [('base, current tree, stored difference', 'trees', '_base, entries, _diff')],
  ['entries of base and configurations', '_diff'],
  note='Short histories exhaustive in TLC and replayed; long random histories on Diffed_Data and on Vehicle/Config validated.')

P('C05', 'Processes run each step once, in order; analyses reach every member',
  'Evaluating a process runs each step exactly once in insertion order, nested processes included, passes '
  'the same arguments to each, and returns the results nested under the names of the steps; a step that raises, or holds nothing, stops the run '
  'there. Analysis containers pass initialize, evaluate and finalize to every member in order, and a vehicle-analyses '
  'container puts each analysis in the slot of its family, replacing only that slot. Names appended, inserted, replaced or '
  'removed take effect exactly in the next run.',
  ['histories', 'schedules'], 'every nesting, history of edits and placement of failing or missing steps',
  'Every script has a fixed process; a skipped, doubled or reordered step usually still converges.',
  ['trunk/SUAVE/Analyses/Process.py', 'trunk/SUAVE/Analyses/Analysis.py', 'trunk/SUAVE/Analyses/Vehicle.py',
   C + 'ContainerOrdered.py'],
  [('evaluation', 'trunk/SUAVE/Analyses/Process.py evaluate'),
   ('phase dispatch', 'trunk/SUAVE/Analyses/Analysis.py Container'),
   ('family routing', 'trunk/SUAVE/Analyses/Vehicle.py append')],
  [('step tree', 'ordered names of steps', 'process entries'), ('log', 'calls made so far', 'recording steps')],
  ['calls received by steps', 'returned results'],
  note='Bounded trees exhaustive in TLC and replayed; random histories validated.')
P('C06', 'A vehicle keeps, weighs and locates every component given to it',
  'A component appended to a vehicle lands in the collection of its family (anything that is not a component is refused), '
  'under its normalised tag or a fresh name derived from it, and stays there with all its data until removed, whatever is '
  'appended, removed, nested or copied around it. The summed mass of a vehicle, or of any nested collection, is at all times '
  'the sum over every physical component it contains, each once, and its moment and centre of gravity are the mass-weighted '
  'mean of the components\' centres (averaged over their instances). Copies are independent, and asking changes nothing but '
  'the vehicle\'s own stored answer.',
  ['histories', 'inputs'], 'every history of assembly, edits, copies and queries, over nested collections',
  'Scripts build one vehicle each and check a few end results; a component lost, doubled or misfiled shifts them by little.',
  ['trunk/SUAVE/Vehicle.py', 'trunk/SUAVE/Components/Physical_Component.py', C + 'Container.py'],
  [('family routing', 'trunk/SUAVE/Vehicle.py append_component'), ('mass and moment sums',
    'trunk/SUAVE/Components/Physical_Component.py Container'), ('centre of gravity', 'trunk/SUAVE/Vehicle.py CG')],
  [('slots', 'components by family', 'vehicle entries'), ('mass, origin, cg', 'numbers per component', 'component entries')],
  ['entries of the vehicle', 'sum_mass', 'total_moment', 'CG'],
  note='Exhaustive small vehicles in TLC, every behaviour replayed; random long histories on real vehicles validated.')

P('C07', 'An optimization problem evaluates exactly the design it is given',
  'Evaluating a design writes every input value, times its scale and units (clipped to bounds when hard bounds are on), to '
  'exactly the variables its aliases name, in every configuration a wildcard matches, runs the procedure, and reads objective '
  'and constraints through their aliases, divided by their scale and units. Answers always belong to the design and fidelity '
  'asked for, with the procedure run once per new design (always when forced, again after a failure), residuals are positive '
  'exactly when an inequality is met and zero when an equality is, and finite differences are the difference quotients at '
  'that design. Names without an alias are an error, never a neighbour\'s value.',
  ['histories', 'inputs'], 'every problem table, alias list and history of queries, edits, failures and fidelity changes',
  'Scripts evaluate one well-formed problem at one design; caching and failures need histories.',
  ['trunk/SUAVE/Optimization/Nexus.py', 'trunk/SUAVE/Optimization/helper_functions.py'],
  [('evaluate and cache', 'trunk/SUAVE/Optimization/Nexus.py evaluate/unpack_inputs'),
   ('alias paths', 'trunk/SUAVE/Optimization/helper_functions.py set_values/get_values'),
   ('residuals', 'trunk/SUAVE/Optimization/Nexus.py inequality_constraint/equality_constraint')],
  [('inputs, last inputs, fidelity', 'problem table and cache key', 'Nexus')],
  ['returned objective, constraints, gradients', 'configuration values', 'procedure runs'],
  note='Small problems exhaustive in TLC; random problems and histories on the real Nexus validated.')

P('C08', 'Optimizers search only the stated region and return what they evaluated',
  'A swarm search evaluates only designs inside the bounds, respects its evaluation budget and returns the best feasible '
  'design it evaluated with that design\'s value. The solver set-ups hand on exactly the scaled bounds, start, objective and '
  'every constraint, so the feasible set and the optimum are those of the stated problem. Trust region management keeps each '
  'subproblem inside region and bounds, corrects value and slope of objective and constraints to the high fidelity at the '
  'centre, accepts only steps that improve objective or violation, resizes by the stated thresholds, stops when stated, '
  'returns the last accepted design, and leaves the output stream as found.',
  ['inputs', 'histories'], 'every problem, and every candidate the inner solver may return at each iteration',
  'Scripts run one smooth problem per optimizer, where wrong bounds, edges or acceptance still end near the optimum.',
  ['trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py', 'trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py',
   'trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py'],
  [('swarm', 'trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py'),
   ('solver set-up', 'trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py SciPy_Solve'),
   ('trust region step', 'trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py optimize')],
  [('centre, size, iteration', 'trust region', 'Trust_Region')],
  ['evaluated designs', 'arguments given to the inner solver', 'returned solution'],
  note='Specs exhaustively checked on small grids; real optimizers run with lattice-search and scripted inner solvers, validated.')

P('C09', 'Control-point arrays keep their rows through expansion, solving and joining',
  'Expanding a state gives every entry still held as one row the requested number of control points, by repetition, leaves '
  'grown arrays, start values and numerics alone, and forced expansion resizes all. Joining the states of a mission\'s segments '
  'stacks their rows in segment order with nothing lost, shared or changed, and the solver\'s unknown vector goes back to exactly '
  'the segments, rows and columns it came from, its residuals and verdict with it. A mission solved all at once, also for a '
  'landing weight or state of charge, flies its segments as they fly alone and meets its target.',
  ['inputs', 'histories'], 'every set of segments, control-point counts, unknown shapes and solver answers',
  'Scripts fly one all-at-once mission with equal point counts and one-column unknowns, where swapped or shared rows cannot show.',
  ['trunk/SUAVE/Analyses/Mission/Segments/Conditions/', 'trunk/SUAVE/Methods/Missions/Segments/converge_root.py',
   'trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py'],
  [('expansion', 'trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py expand_rows'),
   ('joining', 'trunk/SUAVE/Analyses/Mission/Segments/Segment.py merged'),
   ('solver binding', 'trunk/SUAVE/Methods/Missions/Segments/converge_root.py')],
  [('arrays', 'every entry of the states of segments and mission', 'segment.state')],
  ['states after each step', 'unknown and residual vectors', 'flown conditions'],
  note='Row model exhaustively in TLC; real all-at-once missions of scripted segments and of exact flights validated by the traces.')

P('C10', 'A mission flies its inputs, each segment from where the last one ended',
  'Flying a mission takes every segment from the time, place, mass and - where its own start value is not given - altitude, '
  'pitch and speed at which the one before it ended, and carries it to the end values, along the speed, altitude, angle, rate '
  'and pitch laws its inputs state, forces balanced at every control point it calls converged. Along the way time advances, '
  'mass falls by the analyses\' mass rate, and range, position, latitude and longitude are the integral of the speed along the '
  'true course. The result follows from the inputs as they stand, not from earlier flights of the same mission.',
  ['inputs', 'histories'], 'every mission of catalogue segments, and every history of edits and flights of it',
  'Scripts fly a few missions once, comparing one throttle or lift coefficient; continuity and re-flight are never looked at.',
  ['trunk/SUAVE/Methods/Missions/Segments/', 'trunk/SUAVE/Analyses/Mission/'],
  [('continuation', 'trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py and Common/Weights.py'),
   ('segment laws', 'trunk/SUAVE/Methods/Missions/Segments/<kind>/<segment>.py initialize_conditions'),
   ('sequence', 'trunk/SUAVE/Analyses/Mission/Sequential_Segments.py')],
  [('segment states', 'conditions at the control points', 'segment.state')],
  ['time, position, mass, speed, attitude, throttle at every control point'],
  note='Missions of closed-form segments exhaustively in TLC; 27 real segment kinds flown in an exact world and validated.')

P('C11', 'A battery accounts for every joule and amp second of its charges and discharges',
  'A battery flown through charging and discharging legs holds the energy it started with, plus the work done on it, less its '
  'losses, filled no further than its capacity, each leg starting from the energy, charge throughput, temperature and age the '
  'last one ended with; state of charge is energy over capacity within 0 and 1, days pass when asked to, wear never heals, and a '
  'charge lasts long enough to refill what is missing. A pack sized by mass, by energy and power, or by circuit has the cells, '
  'mass, energy, power, voltages and currents those imply.',
  ['inputs', 'histories'], 'every world of batteries, every mission of charging and discharging legs, and every edit and re-flight',
  'Scripts compare a few end values of one cycle, so what is carried across legs, clipped, or aged can change unseen.',
  ['trunk/SUAVE/Components/Energy/Storages/Batteries/', 'trunk/SUAVE/Methods/Power/Battery/',
   'trunk/SUAVE/Components/Energy/Networks/Battery_Cell_Cycler.py', 'trunk/SUAVE/Methods/Missions/Segments/Common/Energy.py'],
  [('hand over', 'trunk/SUAVE/Methods/Missions/Segments/Common/Energy.py initialize_battery'),
   ('energy and throughput', 'trunk/SUAVE/Components/Energy/Storages/Batteries/Constant_Mass/Lithium_Ion.py energy_calc'),
   ('duration', 'trunk/SUAVE/Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py'),
   ('sizing', 'trunk/SUAVE/Methods/Power/Battery/Sizing/')],
  [('energy, capacity, throughput, age, temperature', 'battery conditions of each leg', 'segment.state.conditions.propulsion')],
  ['battery conditions at the control points', 'pack data after sizing'],
  note='Small missions exhaustively in TLC and replayed; random generic and NMC missions, edits and sizings validated.')

P('C12', 'Energy networks deliver exactly what their engines deliver together',
  'At every flight state of a batch, in whatever order and company the states come, a network delivers the sum of what its engines '
  'or propellers deliver one by one: thrust, mass rate, shaft power, and power drawn, to which avionics, payload and panels add. '
  'Identical engines count once per engine. A sized network gives its design thrust back at the design point, in proportion '
  'when engines are added later; an engine out leaves the others at full throttle and the state as it was. A vehicle gets the sum '
  'of its networks, fuel and additional fuel told apart, and a mission leg loses just that mass.',
  ['inputs', 'histories'], 'every set of networks, engine counts, members, sizings and loads, at every batch of flight states',
  'Scripts evaluate one network of a fixed number of identical engines at fixed states, so what several different engines or '
  'networks give together is never computed.',
  ['trunk/SUAVE/Components/Energy/Networks/', 'trunk/SUAVE/Components/Energy/Processes/', 'trunk/SUAVE/Methods/Propulsion/',
   'trunk/SUAVE/Methods/Missions/Segments/Common/Energy.py', 'trunk/SUAVE/Methods/Missions/Segments/Common/Weights.py'],
  [('network container', 'trunk/SUAVE/Components/Energy/Networks/Network.py Container.evaluate_thrust'),
   ('engine sums', 'evaluate_thrust of each network'), ('engine out', 'Turbofan.py, Turbojet_Super.py engine_out'),
   ('sizing', 'trunk/SUAVE/Methods/Propulsion/*_sizing.py and Processes/Thrust.py')],
  [('networks', 'engine counts, members, identical flags, sizing, loads', 'the network objects')],
  ['results of evaluate_thrust and engine_out, propulsion conditions, masses after a leg'],
  note='The composition laws are model-checked; TLC behaviours and random histories run on fifteen kinds of real networks. '
       'One engine alone is taken as measured.')

P('C13', 'Lift and drag of a vehicle are those of its parts, at every point of a batch',
  'Whatever wings, bodies and nacelles a vehicle has, in whatever order and company its flight states are evaluated, drag is the sum '
  'of the drag areas of the parts over the reference area: friction and pylons, induced drag wing by wing or by the efficiency '
  'asked for, compressibility, excrescences; then trim, increments, spoilers and the lift to drag adjustment. Lift is that of the '
  'wings with the fuselage correction. Surrogates give back what they were trained on. The forces are these coefficients times '
  'dynamic pressure and area, lift within its limits, nothing without dynamic pressure.',
  ['inputs', 'histories'], 'every vehicle, settings and edit of them, and every batch of sub-, trans- and supersonic flight states',
  'Scripts compare one vehicle in batches of one regime with stored numbers, so mixed batches and other vehicles are never seen.',
  ['trunk/SUAVE/Analyses/Aerodynamics/', 'trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/', 'trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/',
   'trunk/SUAVE/Methods/Aerodynamics/AERODAS/', 'trunk/SUAVE/Methods/Missions/Segments/Common/Aerodynamics.py'],
  [('drag build-up', 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag/'), ('surrogates', 'Analyses/Aerodynamics/Vortex_Lattice.py'),
   ('forces', 'Missions/Segments/Common/Aerodynamics.py update_aerodynamics')],
  [('vehicle, settings', 'parts, areas, settings', 'the vehicle and the analysis')],
  ['aerodynamic conditions, their breakdown, wind frame forces'],
  note='The composition laws are model-checked; TLC behaviours and random histories run on five real aerodynamic analyses. '
       'One part alone at one state is taken as measured.')

P('C14', 'A wing has one shape, however it is described',
  'A wing told by its area, span, taper and sweep, by segments, or by more segments on the same straight lines has the same chords, '
  'areas, mean chord, span, sweeps, length, thickness and aerodynamic center, those of the integral over its panels; a symmetric wing '
  'is two of one side, one twice as large scales with it. Panels and control surface pieces tile it: nothing lost, nothing twice. The '
  'vortex lattice covers that shape and gives the same coefficients whatever the size, place, order of wings, batch of states or '
  'description, mirrored ones in mirrored wind. Body lengths add up; rotations keep lengths row by row.',
  ['inputs', 'histories'], 'every wing planform, description and edit of it, every set of control surfaces, every batch of flight states and body rates',
  'Scripts compare a few fixed wings with stored numbers, in which an error common to a description cannot show.',
  ['trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/', 'trunk/SUAVE/Methods/Geometry/Three_Dimensional/',
   'trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/', 'trunk/SUAVE/Components/Wings/'],
  [('planform', 'wing_planform, wing_segmented_planform, segment_properties'), ('control surfaces', 'populate_control_sections, make_VLM_wings'),
   ('lattice', 'generate_vortex_distribution, VLM'), ('rotations', 'angles_to_dcms, orientation_product')],
  [('wing', 'planform and segments', 'the wing object')],
  ['planform results, control sections, vortex distribution, VLM coefficients'],
  note='Two deviations of wings of one side are known findings. Wings both symmetric and vertical are left out (ambiguous). '
       'The lattice is compared with itself under changes that keep the flow, not with a solution of its own.')

P('C15', 'Units convert both ways and stay what they are',
  'A number times a unit is that quantity in SI units and divided by the unit is the number again, whatever the order of the factors, '
  'for every name of the unit, for numbers and arrays, and for products, quotients and powers of units; temperatures with an '
  'offset convert there and back. Converting never changes the array it is given nor the unit it uses: the same unit object gives the same '
  'answer however often, and in whatever order and company, it was used before, and all names of one unit agree.',
  ['inputs', 'histories'], 'every unit, combination and value, and every history of conversions through shared unit objects and arrays',
  'Scripts convert numbers at the place of definition, once per unit object; a unit that changes by use, or an array changed in '
  'place, needs a second use.',
  [C + 'Units.py'],
  [('conversion', C + 'Units.py Quantity.__rmul__/__rdiv__'), ('combination', C + 'Units.py Quantity.__mul__/__div__/__pow__'),
   ('names', C + 'Units.py Units.__getattr__')],
  [('unit objects', 'value and offset of a unit', 'Units, Quantity'), ('held arrays', 'what was given', 'the caller')],
  ['results of multiplication and division with units'],
  note='Decimal arithmetic in TLA+ over a table of about sixty units; behaviours replayed, random histories validated.')

P('C16', 'The atmosphere is one column of air',
  'At every altitude, in whatever batch, order and shape it is asked for, the atmosphere answers row by row: temperature is that of its layer '
  'plus the deviation, pressure falls with height as the air above weighs, without jumps at the layer breaks, density follows the gas law, speed of sound and '
  'viscosity the temperature; altitudes beyond its ends are those of the ends. What a mission segment puts in its conditions - dynamic pressure, Mach and '
  'Reynolds number, gravity - belongs to that air and speed. Asking changes neither arguments nor atmosphere, and copies answer alike.',
  ['inputs', 'histories'], 'every batch of altitudes and temperature deviations, every atmosphere, and every history of queries, copies and edits',
  'Scripts compare a few altitudes with stored numbers; breaks, ends, batches of one deviation per row, and the balance between levels are not looked at.',
  ['trunk/SUAVE/Analyses/Atmospheric/', 'trunk/SUAVE/Attributes/Atmospheres/', 'trunk/SUAVE/Attributes/Gases/Air.py',
   'trunk/SUAVE/Methods/Missions/Segments/Common/Aerodynamics.py'],
  [('layers', 'trunk/SUAVE/Analyses/Atmospheric/US_Standard_1976.py compute_values'),
   ('constant temperature', 'trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py compute_values'),
   ('freestream', 'trunk/SUAVE/Methods/Missions/Segments/Common/Aerodynamics.py update_atmosphere/update_freestream')],
  [('breaks', 'altitude, temperature and pressure of the layers', 'atmosphere.breaks')],
  ['compute_values results', 'freestream conditions'],
  note='Hydrostatic balance and gas law checked between levels in decimal arithmetic; the gas polynomials of viscosity and conductivity are taken from the code.')

P('C17', 'The weight statement of an aircraft adds up and is what its parts carry',
  'Whatever vehicle and method, a weight statement adds up: groups to their totals, these to the empty mass, with operating items, payload and fuel to '
  'the takeoff mass; payload and crew follow passengers and cargo. The parts carry the masses the statement gives them; masses told beforehand are '
  'kept; reduction factors take their share of their part only. Weighing changes nothing else of the vehicle, no other '
  'vehicle, and gives the same again whatever was weighed before. Systems stand where the layout puts them, and the center of gravity of '
  'fuel, at every load, and of a mission is that of its masses.',
  ['inputs', 'histories'], 'every transport vehicle, method, reduction factor and edit, every set of tanks, and every history of weighings and copies',
  'Scripts compare one statement per vehicle with stored numbers; sums that fail for other engines, cabins or the second weighing are not looked at.',
  ['trunk/SUAVE/Methods/Weights/Correlations/', 'trunk/SUAVE/Analyses/Weights/', 'trunk/SUAVE/Methods/Center_of_Gravity/'],
  [('weight statement', 'trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py empty_weight'),
   ('other vehicles', 'Correlations/General_Aviation/empty.py, BWB/empty.py, Methods/Weights/Buildups/eVTOL/empty.py'),
   ('placement', 'trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py'),
   ('fuel', 'trunk/SUAVE/Methods/Center_of_Gravity/compute_fuel_center_of_gravity_longitudinal_range.py')],
  [('vehicle', 'parts and their masses', 'the vehicle object'), ('settings', 'reduction factors', 'the weights analysis')],
  ['weight statements, mass_properties and centers of gravity of the parts'],
  note='Sums, closures, payload, crew, items and factors are model-checked laws in decimal arithmetic; the correlation of one '
       'part alone is taken as measured. Four deviations are known findings.')

P('C18', 'What is written to a file is what was there, and reading it gives it back',
  'An archive of any data, once read, has the same keys in the same order and the same values, reading and writing again changes nothing more, functions '
  'are left out and what cannot be stored is refused with the earlier file untouched; writing never changes the data. XML reads back with its tags, attributes, '
  'text and order. Trees for viewing show every entry once, in order. The weight report and mission report list every group and segment '
  'with its numbers in the units asked for, and totals that are the sums of their lines. A wing written as a mesh has the corners of its own panels.',
  ['inputs', 'histories', 'crash points'], 'every nesting of values, every history of edits, writes, failed writes and reads over several files, every report and surface',
  'Tests write and read one set of results; kinds of values, failed writes, additional fuel, long missions and later wings are not looked at.',
  ['trunk/SUAVE/Input_Output/'],
  [('archive', 'trunk/SUAVE/Input_Output/SUAVE/archive.py, load.py'),
   ('XML and trees', 'trunk/SUAVE/Input_Output/XML/, D3JS/, FreeMind/'),
   ('reports', 'trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py, print_weight_breakdown.py'),
   ('meshes', 'trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py')],
  [('v', 'values in memory', 'SUAVE.Core.Data and what it holds'), ('f', 'files', 'what archive wrote last'), ('x, g', 'XML elements and files', 'XML.Data')],
  ['values read back, files, printed lines, mesh points and cells'],
  note='Behaviours of the model are replayed with real values; recorded histories, reports and meshes are validated against StoreTrace.')
P('C19', 'Performance and cost estimates agree with flights, speeds, loads and sums',
  'The corners of a payload-range diagram close (empty mass, payload, fuel and takeoff mass, within every limit told), each range is that of a flight at that mass '
  'burning that fuel less the reserves, and a later diagram leaves an earlier one alone. Field lengths, stall speed and the mass for a field follow from the air at the '
  'airport, lift, engines and the thrust at seven tenths of the takeoff safety speed, and leave the vehicle as it was. The speeds of best lift to drag and of best endurance '
  'are where those are greatest between stall and the upper bound, in the air asked for. Limit, maneuver and gust loads and design speeds follow the certification part '
  'and category, and the loads told cover them. Cost totals are the sums of their parts, a unit bears its share, and the yearly costs add up to the totals.',
  ['inputs', 'histories'], 'every mass limit and flight, every airport, air and number of engines, every wing and polar, every category, altitude and wing loading, every programme of costs, and repeated estimates',
  'Tests run one diagram, one field at sea level and one programme of costs; masses that do not meet, high or hot airports, user constants, second diagrams and facilities are not looked at.',
  ['trunk/SUAVE/Methods/Performance/', 'trunk/SUAVE/Methods/Costs/'],
  [('payload and range', 'trunk/SUAVE/Methods/Performance/payload_range.py, electric_payload_range.py'),
   ('fields', 'trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py, estimate_landing_field_length.py, find_take_off_weight_given_tofl.py, estimate_stall_speed.py'),
   ('best speeds', 'trunk/SUAVE/Methods/Performance/maximum_lift_to_drag.py, propeller_range_endurance_speeds.py'),
   ('loads', 'trunk/SUAVE/Methods/Performance/V_n_diagram.py'),
   ('costs', 'trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/')],
  [('w', 'mass limits', 'vehicle.mass_properties'), ('dist, n, out', 'the search for a range', 'payload_range'), ('Vc, Vd, limits', 'design speeds and loads', 'V_n_diagram'), ('flow', 'yearly costs', 'costs.industrial')],
  ['diagram rows and the flights flown', 'lengths, speeds and masses', 'load factors and speeds', 'costs and cash flow'],
  note='The search for a range is model-checked over mass limits; recorded estimates over missions, engines and airports that answer as told are validated against PerfTrace. The gusts of a V-n '
       'diagram use the chord of the last wing, a known finding.')
P('C20', 'Stages of a gas engine hand on the heat, pressure and work they are given',
  'Each stage gives what the gas laws make of what it is given: ram and inlets keep the heat of the flow and lose pressure only by their losses and shocks, compressors and fans take the work their '
  'pressure ratio needs, combustors and afterburners burn the fuel that heats the flow to what is told (in a duct, no hotter than chokes it), turbines give the work that compressors, fans and shaft '
  'draw, nozzles expand to the pressure around unless choked or limited by their area, and pass the flow they are given. Thrust, flow, fuel and power of an engine follow from what leaves it, '
  'for every row of conditions by itself; what a stage takes is what the one before it gave, and an engine gives its design thrust where it was sized.',
  ['inputs'], 'every mix of conditions in one evaluation, of pressure ratios, efficiencies, temperatures, bypass, shaft power, areas, shocks and kinds of engine, with and without afterburner',
  'Tests run one engine of each kind at two conditions, one at a time, against stored thrust and fuel; mixes of subsonic and supersonic rows, losses, shaft power and afterburners are not looked at.',
  ['trunk/SUAVE/Components/Energy/Converters/', 'trunk/SUAVE/Methods/Propulsion/'],
  [('stages', 'trunk/SUAVE/Components/Energy/Converters/Ram.py, Compression_Nozzle.py, Compressor.py, Fan.py, Combustor.py, Turbine.py, Expansion_Nozzle.py, Supersonic_Nozzle.py, Shaft_Power_Off_Take.py'),
   ('thrust', 'trunk/SUAVE/Components/Energy/Processes/Thrust.py'),
   ('engines', 'trunk/SUAVE/Components/Energy/Networks/Turbofan.py, Turbojet_Super.py, Ducted_Fan.py, Ramjet.py, Scramjet.py'),
   ('gas dynamics', 'trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py, fm_solver.py, rayleigh.py, shock_train.py; Methods/Aerodynamics/Common/Gas_Dynamics/')],
  [('s', 'heat and pressure of the flow', 'outputs of a stage'), ('f', 'fuel burned', 'fuel_to_air_ratio'), ('w', 'work taken and given', 'work_done'), ('M', 'Mach number', 'mach_number')],
  ['what leaves every stage', 'thrust, flow, fuel and power', 'links between stages, and what is told of a jet to others'],
  note='The laws of a line of stages are model-checked over short engines; recorded stages, ducts, shocks and whole engines are validated against GasTrace.')
