"""Properties, and which contract units and harnesses decide each.  gen.py writes properties.jsonl and MANIFEST.json
from this file."""
I = 'openscenario/openscenario_interpreter/'
IH = I + 'include/openscenario_interpreter/'
T = 'simulation/traffic_simulator/'
TH = T + 'include/traffic_simulator/'
G = 'common/math/geometry/include/geometry/'
S = 'simulation/simple_sensor_simulator/'
R = 'test_runner/random_test_runner/include/random_test_runner/'

# per contract unit: proto (needs generated protobuf headers), ros (needs the stand-in headers), native_sources
CORE = {'ros': True, 'pugi': True, 'real_eigen': True, 'flags': ['-fdelayed-template-parsing'], 'lax_link': True}
UNITS = {
    'job': {'ros': True},
    'geometry': {'ros': True},
    'solver': {'ros': True},
    'metrics': {'ros': True},
    'segments': {'ros': True},
    'curves': {'ros': True},
    'splines': {'ros': True},
    'speeds': {'ros': True},
    'conversions': {'ros': True, 'proto': True},
    'boxes': {'ros': True, 'boost_geometry': True},
    'storyboard': CORE,
    'triggers': CORE,
    'events': CORE,
    'scope': CORE,
    'conditions': {**CORE, 'real_eigen': False},
    'values': CORE,
    'signals': CORE,
    'reader': CORE,
    'actions': CORE,
    'parameters': CORE,
    'moves': {**CORE, 'real_eigen': False},
}

PROPS = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, units=None, na=None, assumptions=(), note='', level='proof'):
    PROPS[id] = {'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                 'why_tests_cant': why,
                 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                             'observe_at': observe},
                 'units': units or {}, 'na': na, 'assumptions': list(assumptions), 'note': note, 'level': level}


prop('C01', 'Enumerated attributes accept exactly their vocabulary and print it back',
     'Reading an enumerated scenario attribute succeeds exactly for the identifiers the simulator supports, yields the value of that name, and printing that value gives the identifier back. Every other text is rejected with an error, whether it is an identifier OpenSCENARIO defines but the simulator does not support or no identifier at all.',
     ['inputs'], 'every string offered as a value, for every enumerated attribute type',
     'Only one enumerated type has a test, on its own identifiers; the rejected texts are an infinite set.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('rule', 'priority', 'condition_edge', 'coordinate_system', 'parameter_type', 'triggering_entities_rule', 'storyboard_element_state', 'storyboard_element_type')] + [IH + 'syntax/rule.hpp'],
     [('extraction operator', 'openscenario_interpreter/src/syntax/*.cpp'), ('insertion operator', 'openscenario_interpreter/src/syntax/*.cpp')],
     ['stream extraction and insertion of each enumerated type'], {'enums': None})

prop('C02', 'Numeric and boolean literals read to the value they denote, or are rejected',
     'A numeric or boolean scenario literal is read to exactly the value it denotes, including signed infinities and not-a-number for real numbers, and any text that denotes no value of the type (out of range, fractional or negative where not allowed, trailing or embedded garbage, empty) is rejected with an error. Reading back what the simulator prints for a boolean or integer value yields the same value, and an unset value takes the documented default.',
     ['inputs'], 'every string and every value of the literal types',
     'The test reads a handful of literals of one type; the strings and values are unbounded.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('double', 'integer', 'unsigned_integer', 'unsigned_short', 'boolean')],
     [('string constructors', 'openscenario_interpreter/src/syntax/{double,integer,unsigned_integer,unsigned_short,boolean}.cpp')],
     ['construction from text', 'stream extraction and insertion'], {'literals': None})

prop('C03', 'Comparison rules decide exactly the relation they name',
     'Evaluating a comparison rule of a condition on two operands yields true exactly when the named relation holds: greater, less, greater-or-equal, less-or-equal, equal and not equal, for numbers, strings and every other comparable operand. For numbers, equal means closer than machine epsilon, and nothing compares with not-a-number except by not-equal.',
     ['inputs'], 'every rule and every pair of operands, infinities and not-a-number included',
     'No test evaluates a rule; the operands are all pairs of doubles and strings.',
     [IH + 'syntax/rule.hpp', IH + 'functional/equal_to.hpp'],
     [('Rule::operator()', 'openscenario_interpreter/syntax/rule.hpp'), ('equal_to', 'openscenario_interpreter/functional/equal_to.hpp')],
     ['result of applying a rule'], {'rule': None})

prop('C08', 'A grid traversal visits exactly the cells its segment passes through, in order',
     'Traversing the occupancy grid along a segment starts at the cell containing the start point (a coordinate on a cell boundary belongs to the cell above it) and then moves, one neighbour at a time, across the cell boundary the segment reaches first, so that every visited cell is met by the segment and successive cells share a boundary point. It ends when the segment leaves no further cell before its end (the cell left last is the last one visited), a segment parallel to an axis stays in its row or column, and one of length zero visits no cell.',
     ['inputs'], 'every start and end point, negative coordinates and boundary points included, over exact reals',
     'The test traverses a handful of segments; the geometry must hold for all of them.',
     [S + 'src/sensor_simulation/occupancy_grid/grid_traversal.cpp', S + 'include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp'],
     [('constructor and begin()', 'grid_traversal.cpp'), ('Iterator::operator++', 'grid_traversal.cpp')],
     ['sequence of cells of a traversal'], {'grid': None},
     assumptions=['coordinates within 10^6 cells (the cell index is an int)'])

prop('C13', 'A job runs once per step while active, cleans up exactly once and never restarts',
     'A new job is active and calls nothing until updated. Every update of an active job calls its update function once with the time accumulated since the job started, then adds the step; when the function reports completion the job becomes inactive and its clean-up runs exactly once, after the update. An inactive job never calls either function again. Inactivating a job cleans it up without updating it.',
     ['histories'], 'every sequence of updates, step lengths and completion answers',
     'The tests drive one or two jobs through a fixed sequence.',
     [T + 'src/job/job.cpp', TH + 'job/job.hpp'],
     [('Job::onUpdate', 'job.cpp'), ('Job::inactivate', 'job.cpp')],
     ['calls of the update and clean-up functions', 'Job::getStatus'], {'job': ['job_starts', 'job_step', 'job_inactivate', 'job_history?']})

prop('C14', 'An exclusive job replaces the active job of its type, and only jobs of the event are updated',
     'Appending an exclusive job inactivates (and cleans up once) the active exclusive jobs of the same type and leaves jobs of other types and inactive jobs alone, and adds the new job as active. Updating the list for an event updates each active job of that event exactly once, in the order the jobs were appended, and touches no other job.',
     ['inputs', 'histories'], 'every list of jobs, types, events and statuses',
     'The tests use lists of at most two jobs in fixed states.',
     [T + 'src/job/job_list.cpp', TH + 'job/job_list.hpp'],
     [('JobList::append', 'job_list.cpp'), ('JobList::update', 'job_list.cpp')],
     ['calls of the functions of the jobs in the list'], {'job': ['job_list_append', 'job_list_update', 'job_list_public?']})

prop('C10', 'Polynomial equations: every solution returned lies in the range and solves the equation, and none in the range is missed',
     'The linear and quadratic solvers return exactly the real solutions within the requested range: none is missed, none outside it is returned (a solution within 1e-7 of an end of the range counts as that end), there are no duplicates of a double root, and a negative discriminant or a non-zero constant has none. A leading coefficient within 1e-7 of zero leaves the equation of lower degree, and an equation that every number solves is rejected with an error. The cubic solver returns the real roots of the cubic within the range, one for each distinct simple root and at least one for a multiple root, also when roots coincide. The evaluation functions compute the polynomial with the given coefficients, highest degree first.',
     ['inputs'], 'every coefficient and range',
     'The tests sample a grid of integer coefficients and only check that what is returned solves the equation, not that nothing is missing.',
     ['common/math/geometry/src/solver/polynomial_solver.cpp', 'common/math/geometry/include/geometry/solver/polynomial_solver.hpp'],
     [('solveLinearEquation, solveQuadraticEquation, solveCubicEquation, filterByRange', 'polynomial_solver.cpp')],
     ['returned solutions'], {'solver': None},
     note='Linear and quadratic solvers, range filter and the reduction of degree are proved over exact reals; the cubic formula (trigonometric and complex arithmetic) is a bounded search on the compiled code, not a proof.')

prop('C11', 'Vector and quaternion operations compute the geometry they name',
     'For every vector, quaternion and scalar: sums, differences, scalar products and quotients act component by component and give the documented message type; inner product, 2-D cross product, norm and distance are those of Euclidean space; a vector is finite exactly when every component is; truncation shortens only vectors longer than the limit and keeps their direction; normalization gives length one and the same direction and rejects zero; the internal angle is the one whose cosine is the inner product over the lengths. The quaternion product is Hamilton\'s, the rotation between two orientations turns one into the other, the rotation matrix and normal vector agree with the quaternion, the angle difference is the angle of that rotation in [0, pi] regardless of order and sign, spherical interpolation runs at constant angle from the first to the second orientation, and Euler angles and direction vectors convert to the orientation they describe.',
     ['inputs'], 'every vector, quaternion and scalar, over exact reals (finiteness: over every double)',
     'The tests evaluate single points of these functions.',
     [G + 'vector3/', G + 'quaternion/'],
     [('vector operations', 'geometry/vector3/*.hpp'), ('quaternion operations', 'geometry/quaternion/*.hpp')],
     ['returned values'], {'geometry': None},
     assumptions=['Eigen and tf2 are represented by contracts in /verif/standin; Euler angles from a quaternion and direction-to-quaternion are searched on the compiled code (bounded), not proved'])

prop('C12', 'Tolerant floating-point comparison follows its definition and its laws',
     'Approximate and essential equality hold exactly when two numbers differ by at most machine epsilon times the larger, respectively smaller, magnitude; definitely less and greater exactly when they differ by more than epsilon times the larger magnitude in that direction, for chains of comparisons pairwise. Hence equality is reflexive and symmetric, less and greater are converse, any two finite numbers are exactly one of less, greater or approximately equal, and essential equality implies approximate equality.',
     ['inputs'], 'every pair of finite doubles, chains of three',
     'There is no test of these functions; the numbers are all doubles.',
     ['common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp'],
     [('isApproximatelyEqualTo, isEssentiallyEqualTo, isDefinitelyLessThan, isDefinitelyGreaterThan', 'comparison.hpp')],
     ['returned values'], {'arithmetic': None})

prop('C04', 'Triggering entities combine by the rule given: all, any or none of them',
     'A condition about several triggering entities holds under rule all exactly when the predicate holds for every one of them, under any when it holds for at least one, and under none when it holds for no one, for every number of entities (an empty selection satisfies all and none, not any). The predicate is evaluated for the entities in the order given.',
     ['inputs'], 'every number of triggering entities and every outcome of the predicate',
     'No test evaluates the rule over entities; the number of entities has no bound.',
     [I + 'src/syntax/triggering_entities_rule.cpp', IH + 'syntax/triggering_entities_rule.hpp'],
     [('TriggeringEntitiesRule::apply', 'triggering_entities_rule.hpp')],
     ['result of applying the rule'], {'collections': ['triggering_entities', 'triggering_order']},
     note='The result is proved for every number of entities; the order of evaluation for up to three (bounded).')

prop('C09', 'Scenario metrics report collisions, standstill and goal arrival exactly by their definition',
     'The ego collision metric reports a contact exactly when the previous contact with that same entity lies more than half a second back or there was none, so a lasting contact is one collision however many other entities are touched meanwhile. The standstill metric reports exactly when the speed has stayed below 0.01 m/s for more than ten seconds of simulation time, without an interruption by a faster status or by a gap of more than two seconds between statuses. The goal metric reports arrival exactly within its distance threshold of the goal.',
     ['histories'], 'every history of contacts and statuses, at any times',
     'The test feeds one metric a few fixed contacts; the other metrics have no test; histories have no bound.',
     [R + 'metrics/'],
     [('EgoCollisionMetric', 'ego_collision_metric.hpp'), ('AlmostStandstillMetric', 'almost_standstill_metric.hpp'), ('GoalReachedMetric', 'goal_reached_metric.hpp')],
     ['returned reports'], {'metrics': ['contacts_1', 'contacts_2', 'contacts_3', 'contact?', 'standstill_step?', 'standstill_start', 'standstill_history', 'goal']},
     assumptions=['random_test_runner/data_types.hpp is represented by a stand-in with the entity status accessors (time, twist, pose)'],
     note='One step is proved from every state the metric can be in; for the contact metric states remembering up to two entities (bounded).')

prop('C15', 'Requests, routing options and endpoints have distinct, fixed names',
     'Each behaviour request prints as its own name, and translates to the name the behaviour plugins know, while a request no plugin supports and a value that is no request are rejected with an error. Routing graph types print as their names and a value that is none as unknown; a routing configuration allows no lane change by default, prints both its parts and equals another exactly when both parts do; converting an old route option keeps what it allowed and allows nothing new. The transport endpoint for a protocol, host and port is the text protocol://host:port, and an unsupported protocol or host is rejected.',
     ['inputs'], 'every enumerator value, valid or not, every port',
     'No test covers these translations.',
     ['simulation/simulation_interface/src/constants.cpp', T + 'src/data_type/behavior.cpp', T + 'src/data_type/routing_graph_type.cpp', TH + 'data_type/routing_configuration.hpp', TH + 'data_type/route_option.hpp'],
     [('getRequestString, operator<<', 'behavior.cpp'), ('to_string', 'routing_graph_type.cpp'), ('getEndPoint, enumToString', 'constants.cpp')],
     ['returned texts'], {'names': None})

prop('C18', 'Errors keep their category and carry the whole message and its origin',
     'An error raised by the simulator is of exactly the category named where it is raised, is catchable as a common error and as a runtime error, and its message is the source file, line and then all parts given, in order and unaltered. Concatenation of parts is their texts one after the other, and the folding helpers combine any number of values from the side they name.',
     ['inputs'], 'every text and number in a message',
     'No test covers error messages; the texts are unbounded.',
     ['common/scenario_simulator_exception/include/scenario_simulator_exception/' + x for x in ('exception.hpp', 'concatenate.hpp', 'fold.hpp')],
     [('concatenate', 'concatenate.hpp'), ('DEFINE_ERROR_CATEGORY, THROW_ERROR', 'exception.hpp'), ('fold_left, fold_right', 'fold.hpp')],
     ['type and what() of the exception'], {'errors': None})

prop('C20', 'Helper functions on collections keep every element and its order',
     'Splitting a text at blanks yields its parts in order, cut at every blank and nowhere else. Printing a collection or its keys yields each element once, in order, nested collections in brackets, with the separator only between elements. Cyclic iteration moves to the next element and from the last one to the first. Looking for circular definitions reports one exactly when a cycle of two or more different definitions can be reached from the given one. Folding, currying and overload sets apply the given functions to the arguments in the order they name.',
     ['inputs'], 'every collection within the stated bounds (cyclic iteration: of any size), every element',
     'No test covers these helpers.',
     [IH + 'utility/' + x + '.hpp' for x in ('circular_check', 'print', 'overload')] + [IH + 'string/split.hpp', IH + 'iterator/circular_iterator.hpp', IH + 'functional/fold.hpp', IH + 'functional/curry.hpp'],
     [('circular_check', 'utility/circular_check.hpp'), ('split', 'string/split.hpp'), ('print_to, print_keys_to', 'utility/print.hpp'), ('CircularIterator', 'iterator/circular_iterator.hpp')],
     ['returned values and printed text'], {'collections': ['circular_next', 'circular_definitions', 'printing', 'printing_keys', 'splitting', 'functional', 'circular_definitions_large']},
     note='Cyclic iteration is proved for collections of every size; the other helpers for collections up to the bound of each harness (three definitions, four characters for splitting, three elements printed): bounded. Larger graphs are searched on the compiled code.', level='other')

prop('C06', 'Objects keep their value, type and behaviour',
     'An interpreter object wrapping a value gives that value back unchanged and shared between all copies of the object, reports the wrapped type and only its base types as what it is, and asking it for an unrelated type is an error, not a wrong value. Evaluating, asking for completion, describing and printing an object do what the wrapped type does for them, and have the documented default effect where it does not provide them.',
     ['inputs', 'histories'], 'every wrapped value and every order of binding, copying and asking',
     'No test touches these wrappers, on which every syntax element is stored and dispatched.',
     [IH + 'pointer.hpp', IH + 'expression.hpp', IH + 'object.hpp', I + 'src/object.cpp'] + [IH + 'type_traits/' + x + '.hpp' for x in ('if_has_member_function_accomplished', 'if_has_member_function_evaluate', 'if_has_member_function_description', 'if_has_stream_output_operator')],
     [('Pointer::bind, is, as', 'pointer.hpp'), ('Expression::evaluate, accomplished, description', 'expression.hpp')],
     ['results of the object interface'], {'objects': None})

SB = [IH + 'syntax/storyboard_element.hpp'] + [I + 'src/syntax/' + x + '.cpp' for x in ('event', 'maneuver', 'maneuver_group', 'act', 'story', 'action')]

prop('C05', 'Storyboard elements follow the life cycle of OpenSCENARIO',
     'A storyboard element waits until its start trigger holds, then executes its content once per evaluation until its goal is accomplished, waits again while executions are left and is complete after the last; it is never executed more often than its maximum, and a complete element does nothing any more. When its stop trigger holds or it is overridden, a running element stops without executing its content, and so do all elements inside it, running or waiting. An element runs its children, each following its own life cycle, and is complete when all of them are; an event starts its actions together and lasts until all are complete. An event that starts with priority override stops the other running events of its maneuver, with skip it gives way to a running one, with parallel it joins them. Every transition calls its observers once, in the order they were added.',
     ['histories', 'inputs'], 'every state an element can be in, every outcome of triggers and goals, every execution count',
     'No test evaluates a storyboard; states, triggers and goals combine without bound over the frames of a simulation.',
     SB, [('StoryboardElement::evaluate, override, stop, transitionTo', 'storyboard_element.hpp'), ('Event::start, Maneuver::overrideEvents', 'event.cpp, maneuver.cpp')],
     ['states of elements', 'calls of the actions of an event'], {'storyboard': None, 'events': ['read', 'event_life', 'first_overrides', 'first_skips', 'first_joins', 'story']},
     assumptions=['pugixml, the simulator API and rclcpp are represented by contracts in /verif/standin (the native replay uses the real pugixml)'],
     note='One evaluation of an element is proved from every state it can be in; children and events for two of them, the story read from a scenario for four evaluations (bounded).')

prop('C07', 'Triggers hold by the rules of condition groups, edges and delays',
     'A trigger holds exactly when all conditions of at least one of its groups hold; one without groups never holds, and a group must have a condition. Every condition is evaluated once per evaluation of the trigger. A condition without edge has the present value of what it is about; rising, falling and risingOrFalling are true exactly in the evaluation in which it has changed that way since the one before; sticky stays true once it was true. With a delay, the value is that of the last evaluation at least that long ago. What a trigger reports as active is its first group that holds and the conditions of that group.',
     ['histories', 'inputs'], 'every outcome of conditions at every history of evaluation times, every delay',
     'No test evaluates a trigger; outcomes and evaluation times form unbounded histories.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('trigger', 'condition_group', 'condition', 'condition_edge')],
     [('Condition::evaluate, update_condition', 'condition.cpp'), ('Trigger::evaluate', 'trigger.cpp'), ('ConditionGroup::evaluate', 'condition_group.cpp')],
     ['results of evaluation'], {'triggers': ['read', 'condition_none', 'condition_sticky', 'condition_rising', 'condition_falling', 'condition_rising_or_falling', 'condition_undelayed?', 'groups', 'no_group']},
     assumptions=['pugixml, the simulator API and rclcpp are represented by contracts in /verif/standin (the native replay uses the real pugixml)'],
     note='Conditions without delay: one evaluation is proved from every state. With delay: three evaluations (bounded); groups: two groups of two conditions (bounded).')

prop('C16', 'A name refers to the nearest declaration, a prefixed one to the scope it names',
     'A reference is taken apart at its separators, a leading one making it absolute, and its name cannot contain a colon. A plain name refers to the nearest declaration of the type asked for: in the present scope, then in the nameless scopes inside it level by level, then outwards in the same way. A prefix chooses the nearest scope of that name beside the present one or one around it, further prefixes lead inwards, and an absolute reference starts at the outermost scope. A name or prefix that is not declared is an error, never another declaration, and so is one that several equally near declarations or scopes share.',
     ['inputs'], 'every reference and every set of declarations in nested scopes',
     'No test resolves a reference; references and nested declarations combine without bound.',
     [IH + 'name.hpp', IH + 'scope.hpp', I + 'src/scope.cpp'],
     [('Prefixed::separate', 'name.hpp'), ('EnvironmentFrame::find, lookupFrame, resolvePrefix', 'scope.hpp, scope.cpp')],
     ['the declaration found, or the error'], {'scope': None},
     note='Scopes nested three deep and references of up to seven characters (bounded); names of every length.', level='other')


prop('C17', 'Each condition compares the quantity it names by the rule given, over its triggering entities',
     'A condition about speed, acceleration, standstill, time headway or relative speed holds exactly when that quantity of the triggering entities, in the direction given, stands in the relation given to its value; an entity selection stands for all its members. A collision condition holds exactly when the triggering entity touches the entity, or an entity of the type, it names. A condition about simulation time, a parameter, the state of a traffic light or the state of a storyboard element holds exactly when that is so: a parameter is compared as its declared type, a storyboard element is in the state or has been in it since the last evaluation. Entities are found by the name they are declared with; a name that is not declared, and a value that cannot be read as the type it is compared with, is an error.',
     ['inputs', 'histories'], 'every quantity, value and rule, every outcome for the entities',
     'No test evaluates a condition; quantities and values are all numbers.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('speed_condition', 'acceleration_condition', 'stand_still_condition', 'time_headway_condition', 'relative_speed_condition', 'collision_condition', 'simulation_time_condition', 'parameter_condition', 'storyboard_element_state_condition', 'traffic_signal_condition', 'triggering_entities', 'entities', 'entity', 'entity_selection')] + [IH + 'simulator_core.hpp'],
     [('evaluate() of each condition', 'openscenario_interpreter/src/syntax/*_condition.cpp'), ('TriggeringEntities::apply', 'triggering_entities.hpp'), ('ParameterCondition::compare', 'parameter_condition.cpp')],
     ['results of evaluation'], {'conditions': None, 'values': None},
     assumptions=['the simulator API is represented by contracts in /verif/standin: it knows the state of each entity and which touch', 'Eigen is represented by contracts in /verif/standin', 'the relative pose of two unturned poses is their difference'],
     note='Three entities, one of them alone and two in a selection; turned observers by quarter turns; storyboard element states for three evaluations (bounded).')

prop('C21', 'Traffic signal controllers show their phases in order, each for its duration',
     'A traffic signal controller begins with its first phase and shows every phase for its duration, then the next one and after the last the first again; a phase without duration has no end. Showing a phase clears the states of the one before and shows all its own, at the traffic light, kind of signal and truth or detection its signal names; anything else as a name, and an unknown true state, is rejected. An action changes to the phase it names at once. A controller with a reference begins its first phase the delay after the reference does, and connecting controllers of different cycle times or unknown ones is an error. Lights that send their state get the states of the next six phases, each with the time until it begins, up to a phase without end.',
     ['histories', 'inputs'], 'every duration, delay and sequence of evaluation times',
     'No test runs a controller; durations and evaluation times form unbounded histories.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('traffic_signal_controller', 'traffic_signals', 'phase', 'traffic_signal_state', 'traffic_signal_controller_action', 'traffic_signal_controller_condition', 'traffic_signal_state_action')],
     [('TrafficSignalController::evaluate, changePhaseTo, updatePredictions', 'traffic_signal_controller.cpp'), ('TrafficSignals::resolve_reference', 'traffic_signals.cpp'), ('TrafficSignalState', 'traffic_signal_state.cpp')],
     ['requests to the traffic lights of the simulator', 'name of the present phase'], {'signals': None},
     assumptions=['the traffic lights of the simulator are represented by a contract that records the requests'],
     note='Controllers of three phases and histories of four evaluations, all durations and times (bounded).', level='other')

prop('C22', 'Attributes, elements and parameter declarations are read as specified, or rejected',
     'An attribute has the value its text denotes as a literal of its type or, when the text refers to a parameter, the value of the parameter converted to its type; an absent attribute has its default, or is an error when it is required, and text that denotes no value or refers to no parameter is an error. Substitutions put the value of a variable or the folder of a package in the place of what names them, inner ones first and all of a text; an unknown one is an error. Elements are read once each in the order of the file when as many are specified as are allowed, otherwise it is an error and none is read; of several alternatives exactly one has to be specified. A declared parameter has the type and value declared, later declarations can refer to it, and it is an error when its name is reserved, its value is none of its type, or it has groups of constraints and meets the constraints of none of them.',
     ['inputs'], 'every value of a referenced or constrained parameter and every number of elements (counted up to four)',
     'No test reads a file with faults; the values of parameters are unbounded.',
     [IH + 'reader/attribute.hpp', I + 'src/reader/attribute.cpp', IH + 'reader/element.hpp', I + 'src/reader/element.cpp', IH + 'type_traits/must_be_default_constructible.hpp'] + [I + 'src/syntax/' + x + '.cpp' for x in ('parameter_declaration', 'parameter_declarations', 'value_constraint', 'value_constraint_group', 'parameter_condition')],
     [('readAttribute, substitute', 'reader/attribute.hpp, attribute.cpp'), ('traverse, readElement, readElements, choice', 'reader/element.hpp, element.cpp'), ('ParameterDeclaration', 'parameter_declaration.cpp')],
     ['value read or error'], {'reader': None},
     assumptions=['the XML document is represented by a contract of pugixml (children, attributes, names)', '$(ros2 ...), $(dirname) and ${...} expressions are not covered'],
     note='Values of referenced and constrained parameters are unbounded; the numbers of elements are bounded by four, attribute and substitution texts are enumerated cases.')

prop('C19', 'Entities are declared, added and removed in the simulation as the scenario says',
     'Adding an entity requests exactly one entity of the kind, name, catalogue parameters, pose and model the scenario declares for it, with the category, driver and controller named there, once; an entity that cannot be added is an error. Assigning a controller passes every property of it on, and an ego entity is engaged, described and addressed as one. Deleting entities removes each of them from the simulation at once, and from then on they count as not added.',
     ['inputs'], 'every dimension, limit, pose and property of an entity',
     'No test adds an entity through the interpreter; the declarations are unbounded.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('add_entity_action', 'delete_entity_action', 'assign_controller_action', 'vehicle_category', 'controller', 'properties', 'scenario_object', 'entity_ref')] + [IH + 'simulator_core.hpp'],
     [('AddEntityAction::operator()', 'add_entity_action.cpp'), ('DeleteEntityAction::operator()', 'delete_entity_action.cpp'), ('AssignControllerAction::operator()', 'assign_controller_action.cpp'), ('ActionApplication', 'simulator_core.hpp')],
     ['requests to the simulator'], {'moves': ['add_vehicle', 'add_others', 'delete_entity', 'assign_controller', 'ego', 'vehicle_categories', 'teleport_adds']},
     assumptions=['the simulator is represented by a stand-in of its API that records every request', 'conversions between lanelet and map poses are uninterpreted functions'])

prop('C23', 'Actions request from the simulator what they say for every actor, and end when the actors are done',
     'When it starts, an action requests for every actor, and for nobody else, exactly what the scenario declares: the speed, absolute or relative to the reference entity, with its transition and its constraint; the lane, target offset, shape and constraint of a lane change; the pose of a teleport; the trajectory, route or position to follow. An action ends as soon as all of its actors have reached what it asks for, in whatever order they do, and not before; one that asks for a state at once or a route ends immediately. A speed profile takes its entries in order, each once all actors have reached the previous one. An action without actors requests nothing and ends.',
     ['inputs', 'histories'], 'every number an action declares, every state of the actors, and selections of actors',
     'No test starts an action; the quantities are all real numbers and the actors arrive in any order.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('speed_action', 'speed_action_target', 'speed_profile_action', 'lane_change_action', 'teleport_action', 'follow_trajectory_action', 'acquire_position_action', 'assign_route_action', 'relative_target_speed', 'transition_dynamics', 'dynamic_constraints', 'absolute_target_lane', 'relative_target_lane')] + [IH + 'simulator_core.hpp'],
     [('start, accomplished, run of each action', 'openscenario_interpreter/src/syntax/*_action.cpp'), ('Actors', 'src/syntax/actors.cpp'), ('ActionApplication', 'simulator_core.hpp')],
     ['requests to the simulator', 'accomplished()'],
     {'actions': None, 'moves': ['teleport', 'teleport_adds', 'follow_trajectory', 'trajectory_followed', 'acquire_position', 'assign_route']},
     assumptions=['the simulator is represented by a stand-in of its API that records every request and answers with unconstrained states', 'conversions between lanelet and map poses are uninterpreted functions', 'speed transitions by time or distance with a cubic shape, lane changes without transition and absolute trajectory times are rejected by the simulator and not covered'],
     note='Quantities and states are unbounded; the actors are one or two entities and selections of them, a profile has up to three entries.')

prop('C24', 'Parameter actions set and modify exactly the parameter they name, in its type',
     'A set action gives the parameter it names the value its text denotes in the type of the parameter; a modify action adds to or multiplies a numeric parameter by the value given, as a real number of which an integer parameter keeps the whole part. They take effect at once when the action starts, not earlier, and change no other parameter. An unknown parameter, text that is no value of its type and the modification of what is no number are errors that change nothing.',
     ['inputs'], 'every value of a numeric parameter and every operand whose result the type can represent',
     'No test runs a parameter action; the values are unbounded.',
     [I + 'src/syntax/' + x + '.cpp' for x in ('parameter_action', 'parameter_set_action', 'parameter_modify_action', 'modify_rule', 'parameter_add_value_rule', 'parameter_multiply_by_value_rule', 'integer', 'unsigned_integer', 'unsigned_short', 'double')],
     [('ParameterSetAction::set', 'parameter_set_action.cpp'), ('ParameterAddValueRule, ParameterMultiplyByValueRule', 'parameter_*_rule.cpp'), ('operator+=, operator*=', 'integer.cpp, unsigned_integer.cpp, unsigned_short.cpp')],
     ['value of the parameter'], {'parameters': None},
     assumptions=['results of modified integer parameters are representable in their type (otherwise C++ leaves them undefined)'])

prop('C25', 'Transforms, planes and line segments compute the geometry they name',
     'A point transformed by a pose is turned by its orientation and moved by its position; seen from a sensor it is the same place in the frame of the sensor, and a relative pose leads from the one pose to the other in the frame of the first. The offset of a point from a plane is the inner product of the normal and the way from the plane. Two line segments meet in the plane exactly when they have a common point, whatever their order and direction and also when they touch or lie on one line; the intersection returned is that point, and several common points are an error. A point, pose, slope, normal or squared distance at a place of a segment is the one at that part of the way, a place off the segment is rejected, the place of a point on a segment is the part of the length before it, and a chain of points is joined in order without segments of length zero.',
     ['inputs'], 'every pose, point and segment, over exact reals, except that three points are either on one line or span an area greater than machine epsilon',
     'The tests evaluate a few dozen segments and poses; touching, parallel and reversed segments form infinite families.',
     ['common/math/geometry/src/' + x + '.cpp' for x in ('transform', 'plane', 'polygon/line_segment', 'intersection/intersection')],
     [('transformPoint, transformPoints, getRelativePose', 'transform.cpp'), ('Plane::offset', 'plane.cpp'), ('LineSegment', 'polygon/line_segment.cpp'), ('isIntersect2D, getIntersection2D', 'intersection/intersection.cpp')],
     ['returned values'], {'segments': None},
     assumptions=['tf2 transforms and Eigen are represented by contracts in /verif/standin', 'getNormalVector: M_PI is taken as the number pi'],
     note='Chains are bounded by four points and sets of segments by four; everything else is proved for all inputs over exact reals.')

prop('C26', 'Bounding boxes overlap, collide and are apart as their outlines at their poses are',
     'The outline of a box is the closed polygon through its corners turned and moved by its pose, each side moved outwards by its extension where one is asked for, and its edges lie half its dimensions from its centre. Two boxes collide exactly when their outlines overlap and so do their heights; boxes whose outlines overlap have no distance and no nearest points, and of others the distance is that of the outlines, with one nearest point on each. The nearest place of a segment to a point is an end or the foot of the perpendicular, that of a polygon the nearest of its sides. Minimum and maximum of points on an axis are reached and not exceeded, and distances of points and poses are Euclidean.',
     ['inputs'], 'every box, pose and point, over exact reals',
     'The tests place two boxes at a handful of poses.',
     ['common/math/geometry/src/' + x + '.cpp' for x in ('bounding_box', 'distance', 'intersection/collision', 'polygon/polygon')],
     [('getPolygonDistance, getClosestPoses, toPolygon2D, pointToSegmentProjection', 'bounding_box.cpp'), ('checkCollision2D', 'intersection/collision.cpp'), ('getMaxValue, getMinValue', 'polygon/polygon.cpp'), ('getDistance', 'distance.cpp')],
     ['returned values'], {'boxes': None},
     assumptions=['Boost.Geometry decides whether two polygons overlap, how far apart they are, whether a point is within one and what a convex hull is: under the verifier these are oracles, and what is asked of them is checked; the native search uses Boost.Geometry itself against a separating-axis oracle'],
     note='getClosestPoses is searched on the compiled code (bounded), polygons are bounded by four corners and sets of points by four; everything else is proved for all inputs over exact reals.')

prop('C27', 'Hermite curves go through the points, directions, lengths and crossings they are made of',
     'A Hermite curve starts and ends at the positions and in the directions it is given, follows the cubic of these in between, and its tangent is the derivative, its normal the tangent turned left by a right angle in the plane, its curvature that of the cubic and its pose at a point heads along the tangent. A place given as a distance is that part of its length, the length adds up the lengths of equal parts, points of a trajectory are equally spaced from the start to the goal, and distances from a point are those to the point on the curve. It crosses a line segment where it is on the segment, at every such place and nowhere else, the first of them or the last when searched backwards; the greatest curvature is the greatest of those sampled.',
     ['inputs'], 'every curve, place and segment, over exact reals',
     'The tests evaluate a few curves at a few places; the families of curves and segments are infinite.',
     ['common/math/geometry/src/spline/hermite_curve.cpp', 'common/math/geometry/include/geometry/spline/hermite_curve.hpp'],
     [('getPoint, getTangentVector, getNormalVector, get2DCurvature, getPose', 'spline/hermite_curve.cpp'), ('getLength, getTrajectory', 'spline/hermite_curve.cpp'), ('getCollisionPointsIn2D, getCollisionPointIn2D', 'spline/hermite_curve.cpp')],
     ['returned values'], {'curves': None},
     assumptions=['the equation solver is represented by its contract, which C10 verifies (some solutions in the range asked for)', 'getNormalVector: M_PI is taken as the number pi'],
     note='Lengths and trajectories are bounded by three parts and four points; the greatest curvature and the crossings of whole curves are searched on the compiled code (bounded); everything else is proved for all inputs over exact reals.')

prop('C28', 'Catmull-Rom splines go through their control points, and their places, crossings and parts are those of their curves',
     'A Catmull-Rom spline goes through its control points in order, heading at each along the line between its neighbours; a place on it is a distance along its curves one after the other, and its points, tangents, normals, poses, offsets and squared distances are those of the curve at that place. Two control points are a line segment, one is a point, none are an error. It is as long as its curves together, its greatest curvature is the greatest of theirs, its altitudes span those of its control points, and its crossings with a polygon or segment are those of its curves: all of them, the first one, or the last one when searched backwards. Trajectories advance by the step and end at the goal, its bands follow it at half the width on both sides, and a part of it crosses where the spline crosses within the part, measured from the begin of the part.',
     ['inputs'], 'all control points, places, offsets, steps and ranges, over exact reals, for the numbers of control points stated',
     'The tests evaluate a few splines at a few places; the families of splines are infinite.',
     ['common/math/geometry/src/spline/catmull_rom_spline.cpp', 'common/math/geometry/src/spline/catmull_rom_subspline.cpp'],
     [('CatmullRomSpline', 'spline/catmull_rom_spline.cpp'), ('CatmullRomSubspline', 'spline/catmull_rom_subspline.cpp')],
     ['returned values'], {'splines': None},
     assumptions=['lengths, crossings, places and curvatures of the curves of a spline are their contracts, which C27 verifies', 'getNormalVector: M_PI is taken as the number pi'],
     note='Proved over exact reals within the numbers of control points, curves and crossings stated; splines of one and two points without a bound. The native search runs the real curves.')

prop('C29', 'Messages keep what they say through the conversions between ROS and the simulator protocol',
     'A ROS message converted to the message of the simulator protocol has the same value in every field both have, and converted back, whatever the target held before, it is the message it was: points, poses, motions, times, boxes, vehicle, pedestrian and object parameters, lanelet poses, statuses of entities, control and gear commands, trajectories and traffic lights. Entity types and subtypes keep their meaning and unknown ones are an error; a traffic light keeps the colour, shape, status and confidence of each bulb.',
     ['inputs'], 'every value of every field',
     'No test that runs here converts a message; a dropped field is only seen at a value other than the default.',
     ['simulation/simulation_interface/src/conversions.cpp', 'simulation/simulation_interface/include/simulation_interface/conversions.hpp', 'simulation/simulation_interface/src/operators.cpp', 'simulation/simulation_interface/proto'],
     [('toProto, toMsg', 'simulation_interface/src/conversions.cpp'), ('toMsg', 'simulation_interface/conversions.hpp'), ('operator<<', 'simulation_interface/src/operators.cpp')],
     ['fields of the converted messages'], {'conversions': None},
     assumptions=['the classes of the protocol are generated from the .proto files on every run, with fields, presence and lists but without serialisation', 'gear commands have one of the values the protocol knows', 'arrows up-left and up-right, which the protocol has no value for, are not covered'],
     note='Trajectories are bounded by three vertices; everything else is proved for all values.')

prop('C30', 'A change of speed approaches its target, never beyond it and within the limits of the entity',
     'From a speed and acceleration within the limits, one step towards a target speed moves the speed towards it, or towards the greatest speed where the target is greater, and never beyond it; the acceleration changes no faster than its rates allow and as fast as they allow, and stays, like the speed, within its limits; the acceleration and jerk given are those of the change made. Other components follow their accelerations. A target is reached within the tolerance, and the distance until then adds up what each step covers.',
     ['inputs', 'histories'], 'every speed, acceleration, target, limit and step time, over exact reals',
     'The tests evaluate a handful of targets; limits, states and steps form infinite families.',
     ['simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp', 'common/math/geometry/include/geometry/vector3/operator.hpp'],
     [('getDynamicStates, planLinearJerk, forward, timeDerivative', 'behavior/longitudinal_speed_planning.cpp'), ('isTargetSpeedReached, isAccelerating, isDecelerating, getRunningDistance', 'behavior/longitudinal_speed_planning.cpp')],
     ['returned values'], {'speeds': None},
     assumptions=['limits are not negative and the state before the step is within them', 'durations of a change (getAccelerationDuration) and constraints derived from them are not covered'],
     note='The distance is bounded by three steps; everything else is proved for all inputs over exact reals.')
