#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the records stay consistent)."""
import json, os, sys
H = 'include/adevs/'
S = H + 'solvers/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))

prop('S01', 'Each model makes exactly the right transition at an event',
     'When the state of the simulation is advanced, every model that received input or is due at that instant makes exactly one transition: the internal one if it is due and has no input, the confluent one (with its whole input bag) if it is due and has input, and the external one (with its input bag and the time elapsed since its own last event) if it has input and is not due. A model that neither is due nor has input makes no transition, is not reported as changed and keeps its place in time.',
     ['histories', 'programs'], 'every set of models, every schedule of internal events and inputs, every time type',
     'The tests drive a few fixed models; which transition is chosen depends on the combination of imminence, input and the retraction of input for every model in every reachable history.',
     [H + 'simulator.h'], [('Simulator::computeNextState', H + 'simulator.h'), ('Atomic::delta_int/delta_ext/delta_conf', H + 'models.h')],
     ['Atomic::delta_int', 'Atomic::delta_ext', 'Atomic::delta_conf', 'EventListener::stateChange'],
     [('active', 'models that may change state at this event', H + 'simulator.h'), ('tL/tN', 'time of last / next event of a model', H + 'models.h')])

prop('S02', 'Next events are scheduled from time advances and never lost',
     'A model\'s next event always lies its time advance after its last event (never, if the time advance is infinite), it is recomputed after each of its transitions and when it joins the simulation, and the next event time reported by the simulator is the smallest next event time of all its models. The simulation time returned by an advance is the announced event time plus the smallest increment of the time type, and a negative time advance raises an exception that identifies the offending model instead of scheduling it. Every way of constructing a simulator schedules all of the models it is given, starting at time zero.',
     ['histories', 'programs', 'inputs'], 'every model and history of time advances (finite, infinite, zero, negative), every constructor',
     'The unit tests use a handful of models and time advances; the invariant ties three separate records of a model\'s next event together over unbounded histories.',
     [H + 'simulator.h'], [('Simulator::schedule', H + 'simulator.h'), ('Simulator constructors', H + 'simulator.h'), ('Simulator::computeNextState', H + 'simulator.h')],
     ['Simulator::nextEventTime', 'Simulator::computeNextState', 'adevs::exception::who'])

prop('S03', 'Computing output is complete, free of side effects and repeatable',
     'Computing the next output asks every due non-Mealy model for its output exactly once, changes no model\'s state and neither the clock nor the schedule. It may be repeated: each computation starts from empty output and input lists, so nothing of an earlier, superseded computation is seen by any model, and injected inputs are used by exactly one computation. After an advance no input, output or injected event is left behind for a later event.',
     ['histories', 'programs'], 'every history of injecting input, moving the next event time, computing output (any number of times) and advancing',
     'Tests call the phases in one or two fixed orders; leakage of events from one computation to the next appears only for particular sequences.',
     [H + 'simulator.h', H + 'sched.h'], [('Simulator::computeNextOutput', H + 'simulator.h'), ('Simulator::computeNextState', H + 'simulator.h')],
     ['Simulator::computeNextOutput', 'Simulator::injectInput', 'Atomic::output_func'])

prop('S04', 'Every event is delivered to all and only the connected models',
     'Every output of a model and every injected input is delivered, once per route through the graph and with its value unchanged, to every model that the graph connects to its pin, and the receiving model sees it on the last pin of that route. A model that receives an event is included in the next state change. No model receives an event that was not routed to it in this computation.',
     ['programs', 'histories', 'inputs'], 'every graph, every bag of outputs and injected inputs, Moore and Mealy producers and consumers',
     'Tests check a few small networks; delivery must hold for each of the producer/consumer kinds and any number of events and receivers.',
     [H + 'simulator.h', H + 'graph.h'], [('Simulator::computeNextOutput', H + 'simulator.h'), ('Simulator::calculate_mealy_output', H + 'simulator.h'), ('Graph::route', H + 'graph.h')],
     ['Atomic::delta_ext', 'Atomic::delta_conf', 'MealyAtomic::external_output_func'])

prop('S05', 'Listeners see every output, input and state change, in order',
     'Every registered listener is told of each output a model finally produces, each input applied to a model, and each state change, with that model, that value and the time of the event. A model\'s inputs are reported before its transition and the state change after it. No listener is skipped and nothing is reported that did not happen.',
     ['histories', 'programs', 'configurations'], 'every set of listeners and every history of events',
     'Tests register one listener and look at a few events; the guarantee is for all listeners, all model kinds and all events.',
     [H + 'simulator.h'], [('EventListener', H + 'simulator.h'), ('Simulator::computeNextOutput/computeNextState', H + 'simulator.h')],
     ['EventListener::outputEvent', 'EventListener::inputEvent', 'EventListener::stateChange'])

prop('S06', 'Structure changes wait for the end of the event, then apply in order',
     'While a simulation is running, changes to the model graph are only queued; they take effect after all state transitions of the current event and before the next event time is determined, each exactly once and in the order they were requested. A model that thereby joins is scheduled from the current time, one that leaves altogether will not act again, and one that was already present or is still present keeps its place in time.',
     ['histories', 'programs'], 'every sequence of the seven kinds of graph change made from any transition function',
     'The dynamic-structure tests exercise a few changes one at a time; order, completeness and the effect on models that are present several times need all sequences.',
     [H + 'simulator.h', H + 'graph.h'], [('pending queue', H + 'graph.h'), ('Simulator::computeNextState', H + 'simulator.h')],
     ['Graph::get_pending', 'Graph::get_atomics', 'Simulator::nextEventTime'])

prop('S07', 'Mealy outputs follow their inputs, are recomputed and never cyclic',
     'A Mealy model\'s output is computed after the outputs of all other due models, from all the input it has received, with the internal, confluent or external output function according to whether it is due and has input. If its input changes its previous output is withdrawn from all receivers (and theirs in turn) and recomputed, so that only the final output counts. A cycle of Mealy models is reported by an exception that identifies a model in it rather than looping.',
     ['programs', 'histories'], 'every network of Mealy and Moore models and every order of evaluation (which is by address)',
     'The evaluation order is by pointer value, so tests see few of the possible orders; withdrawal matters only in some of them.',
     [H + 'simulator.h'], [('Simulator::calculate_mealy_output', H + 'simulator.h'), ('Simulator::retract_mealy_output', H + 'simulator.h')],
     ['MealyAtomic::output_func', 'MealyAtomic::external_output_func', 'MealyAtomic::confluent_output_func', 'adevs::exception::who'])

prop('G01', 'The graph counts instances of models and connections exactly',
     'Adding a model or connection that is already in the graph only increases its count, removing one only decreases it, and it disappears exactly when its count reaches zero; other models and connections are unaffected. When a model disappears all connections to it go with it, and removing something that is not there changes nothing. The set of models reported by the graph is exactly the set with a positive count.',
     ['histories', 'inputs'], 'every sequence of add, remove, connect, disconnect and pin removal',
     'The graph test runs short fixed sequences; counts matter only for repeated additions and removals in arbitrary interleavings.',
     [H + 'graph.h'], [('Graph::add_atomic/remove_atomic/connect/disconnect/remove_pin', H + 'graph.h')],
     ['Graph::get_atomics', 'Graph::route'],
     [('atomic_instance_count', 'instances of each model', H + 'graph.h'), ('pin_to_atomic/pin_to_pin', 'connections with counts', H + 'graph.h')])

prop('G02', 'Routing follows every connection and reports the last pin',
     'A route query from a pin reports, for each path of pin-to-pin connections from that pin, every model connected to the last pin of the path together with that last pin, and nothing else. It does not change the graph and only appends to the result it was given.',
     ['programs', 'inputs'], 'every acyclic pin graph and every start pin',
     'Tests check a few graphs of depth one or two.',
     [H + 'graph.h'], [('Graph::route', H + 'graph.h')], ['Graph::route'])

prop('G03', 'A provisional graph queues each change faithfully and changes nothing',
     'In provisional mode each graph operation only appends one request to the end of the queue, recording which operation it is and exactly the pins and model it was called with, in their roles; models, connections and counts stay as they are. In non-provisional mode operations act at once and queue nothing.',
     ['programs', 'inputs'], 'every operation, argument and mode',
     'Tests use one or two of the seven operations in provisional mode.',
     [H + 'graph.h'], [('Graph::queue_*', H + 'graph.h')], ['Graph::get_pending'])

prop('G04', 'Coupled models and the simulated graph stay in step',
     'A coupled model that is part of a simulation forwards each component and coupling it adds or removes to the simulated graph, and one that is not remembers them until it joins. Joining the graph contributes each of its components, couplings and sub-models exactly once, and leaving withdraws exactly the same ones. Removing a component also removes the couplings to it within that coupled model.',
     ['histories', 'programs'], 'every hierarchy of coupled models and every sequence of edits before and during a simulation',
     'Tests build two-level hierarchies; symmetric joining and leaving at any depth and time is not sampled.',
     [H + 'models.h'], [('Coupled::assign_to_graph/remove_from_graph', H + 'models.h'), ('Coupled::add_*/remove_*/create_coupling/remove_coupling', H + 'models.h')],
     ['Graph::get_atomics', 'Graph::route'])

prop('Q01', 'The event queue always yields exactly the models with the least time',
     'After any sequence of insertions, moves and removals the queue\'s minimum is the least priority it holds (infinity if empty), and the imminent set contains each model with that priority exactly once and no other. Models scheduled at infinity are not in the queue, a model appears in it at most once and at the time last given for it.',
     ['histories', 'inputs'], 'every sequence of schedule and remove operations and every pattern of equal priorities',
     'The scheduler tests use random sequences of bounded size; heap-order mistakes need particular shapes and ties.',
     [H + 'sched.h'], [('Schedule::schedule/percolate_up/percolate_down/removeMinimum/visitImminent', H + 'sched.h')],
     ['Schedule::minPriority', 'Schedule::getMinimum', 'Schedule::visitImminent'],
     [('heap', 'binary heap, root at 1, sentinel at 0', H + 'sched.h'), ('q_index', 'position of a model in the heap', H + 'models.h')])

prop('Q02', 'The event queue grows safely and keeps positions in step',
     'However many models are scheduled, the queue never reads or writes outside its storage, growing preserves every entry and the sentinel, and it releases its storage exactly once. The position each model records for itself always matches where the queue holds it, and is cleared when it leaves.',
     ['histories', 'inputs'], 'every number of models and every sequence of operations',
     'Growth happens at one size in the tests and an overrun by one element is silent.',
     [H + 'sched.h'], [('Schedule::enlarge', H + 'sched.h'), ('Schedule::schedule', H + 'sched.h'), ('Atomic::q_index', H + 'models.h')],
     ['Schedule::schedule', 'Schedule::visitImminent'])

prop('T01', 'Every time type is totally ordered and its arithmetic consistent',
     'For each time type supplied by the library the six comparisons agree with one another and form a total order (superdense time is ordered by real part and then by its integer part), and advancing to another instant by the interval to it arrives there exactly. The constants are ordered: sentinel below zero, zero not above the smallest increment, and infinity above all of them and not below any finite value; the smallest increment of real and integer time is zero, and superdense time\'s increment keeps the real part and raises the integer part by one.',
     ['inputs'], 'all values of all time types',
     'Tests compare a few hand-picked values; an order law is a statement about all pairs and triples.',
     [H + 'time.h'], [('sd_time', H + 'time.h'), ('adevs_inf/zero/sentinel/epsilon', H + 'time.h')],
     ['sd_time::operator<', 'sd_time::operator+', 'sd_time::operator-', 'adevs_epsilon'])

prop('T02', 'Tolerant floating comparison is symmetric and its operators agree',
     'Comparing two floating times with a tolerance gives opposite answers when the operands are exchanged, equality for identical values, and a tolerance that scales with the larger magnitude. All relational operators of the tolerant time type are decided by that one comparison with the tolerance in force, so exactly one of less, equal and greater holds for any pair.',
     ['inputs'], 'all pairs of values and tolerances',
     'The test checks a few values around one magnitude.',
     ['src/adevs.cpp', H + 'time.h'], [('double_fcmp', H + 'time.h'), ('double_fcmp::fcmp', 'src/adevs.cpp')],
     ['double_fcmp::operator<', 'double_fcmp::operator=='])

prop('T03', 'Pins have unique, copyable identities and events copy faithfully',
     'Every newly created pin differs from every other pin, also when pins are created concurrently; copies and assignments keep the identity, and all comparisons of pins are consistent with one total order on identities. Copying or assigning an event copies both its pin and its value.',
     ['programs', 'schedules', 'inputs'], 'every program creating and copying pins, from any number of threads',
     'Tests create few pins in one thread.',
     [H + 'models.h', 'src/adevs.cpp'], [('pin_t', H + 'models.h'), ('PinValue', H + 'models.h')], ['pin_t::operator==', 'pin_t::operator<', 'PinValue'])

prop('N01', 'The explicit integrators have their documented order of accuracy',
     'One step of the fourth/fifth-order integrator is a consistent explicit Runge-Kutta step whose solution is fifth-order accurate with an error estimate from an embedded fourth-order solution, and one step of the corrected Euler method is a second-order step with an error estimate from the embedded first-order one, for every system of equations. The reported error is the largest estimate over all state variables, and every state variable is advanced.',
     ['programs', 'inputs'], 'every derivative function, state, step size and dimension',
     'Tests integrate a few systems with loose tolerances; a slightly wrong coefficient lowers the order but still passes.',
     [S + 'rk_45.h', S + 'corrected_euler.h'], [('rk_45::trial_step', S + 'rk_45.h'), ('corrected_euler::trial_step', S + 'corrected_euler.h')],
     ['ode_solver::integrate', 'ode_solver::advance'])

prop('N02', 'Integrators honour step limits and tolerances and land exactly',
     'An integration step returns the step it took, which exceeds neither the caller\'s limit nor the configured maximum, and the state passed in is replaced by the solution of exactly that step. An explicit step is accepted only if its error estimate is within the tolerance, otherwise it is retried from the unchanged initial state with a strictly smaller step. Advancing by a given interval takes steps whose lengths sum to exactly that interval.',
     ['programs', 'inputs', 'histories'], 'every system, tolerance, limit and history of steps',
     'Tests look at the final numerical result only, on smooth problems where steps are rarely rejected.',
     [S + 'rk_45.h', S + 'corrected_euler.h', S + 'trap.h'], [('integrate', S + 'rk_45.h'), ('advance', S + 'corrected_euler.h'), ('trap::integrate', S + 'trap.h')],
     ['ode_solver::integrate', 'ode_solver::advance'])

prop('N03', 'The implicit integrator solves the trapezoidal equations',
     'A step of the implicit integrator is the solution of y = q + h/2 (f(q) + f(y)) for the step h it reports; the Jacobian it hands to the nonlinear solver is that of the residual it hands it, in the solver\'s column-by-column layout. When the nonlinear solver fails the state is left alone and the step is retried with a smaller size, and every failure to set the solver up is reported by an exception. The step tried next is limited by the error tolerance on the difference between the solution and the explicit prediction, for every state variable.',
     ['programs', 'inputs', 'fault_sequences'], 'every system, state and step, and every failure of the nonlinear solver',
     'The solver tolerates a wrong Jacobian or residual scale on easy problems, and tests never see it fail.',
     [S + 'trap.h'], [('trap::func/jac/step/integrate', S + 'trap.h'), ('trap::prep_kinsol', S + 'trap.h')],
     ['ode_solver::integrate'])

prop('N04', 'Spline interpolation matches states and derivatives at both ends',
     'The interpolant used between two states is the cubic that takes the given state and the given derivative at both ends of the interval, for every state variable.',
     ['inputs'], 'all end states, derivatives and interval lengths',
     'Event location through a slightly wrong interpolant still converges in tests.',
     [S + 'spline.h'], [('spline::init/interpolate', S + 'spline.h')], ['fast_event_locator'])

prop('N05', 'Event locators leave step, state and event flags consistent',
     'When an event locator reports an event, the step it hands back lies within the step it was given, the state it hands back is the state at the end of that step computed from the start of the interval, and each event flag tells whether that event\'s function satisfies the locator\'s own criterion at that state. When it reports none, every flag it is responsible for is false, and the step and state still belong together. The search always starts from the given start state, never moves the event past the interval, tries another step in every round, and, where it narrows down an interval, keeps the first event inside it. An event function that meets the criterion inside the interval is looked at and its event can be reported; a locator that narrows down an interval reports only once the interval is within its tolerance, and looks only at points inside it.',
     ['programs', 'inputs'], 'every system, every set of state event functions and every interval',
     'Tests use one or two event functions; stale flags or a state that is out of step with the time need several events or particular crossings.',
     [S + 'event_locators.h'], [('event_locator_impl::find_events', S + 'event_locators.h'), ('fast_event_locator::find_events', S + 'event_locators.h')],
     ['event_locator::find_events'])

prop('H01', 'A hybrid model keeps its continuous state and its clock in step',
     'At every transition of a hybrid model the discrete handler is given the state that belongs to that instant, and the right kind of handler is called exactly once: internal for its own event, external for input, confluent for both. Afterwards the committed state, the trial state and the announced time advance all stem from that result, and the elapsed time reported to an external handler is the whole time since the last discrete event. Integration that ends without an event calls no handler.',
     ['histories', 'programs'], 'every system, solver, locator and sequence of internal, external and confluent events',
     'The combinations of event kind, located event and interrupted step are only sparsely reached by the tests.',
     [S + 'hybrid.h'], [('Hybrid::delta_int/delta_ext/delta_conf/output_func/tentative_step', S + 'hybrid.h')],
     ['ode_system::internal_event', 'ode_system::external_event', 'ode_system::confluent_event', 'Atomic::ta'])

prop('H02', 'A hybrid model plans no further than its next time or state event',
     'Before each next step the hybrid model integrates from its committed state no further than the next time event, searches that step for state events, and announces the smaller of the step reached and the time to the time event as its time advance. A time event is flagged exactly when it is reached by that step, and an event is signalled if and only if a time or a state event was found. Output of the system is produced only at such events, including one that an input arrived on top of.',
     ['histories', 'programs'], 'every system and every interleaving of time events, state events and inputs',
     'Simultaneous time and state events and inputs that arrive together with them are rare in the tests.',
     [S + 'hybrid.h'], [('Hybrid::tentative_step', S + 'hybrid.h'), ('Hybrid::output_func', S + 'hybrid.h')],
     ['Atomic::ta', 'ode_system::output_func'])

prop('C01', 'The CVODE adapter restarts from its checkpoint and tracks time',
     'The CVODE adapter saves the model\'s state after every transition, and an input that arrives in the middle of a step restarts the solver from that saved state and time and integrates exactly to the input\'s time before handling it. Handlers receive the current model time and are chosen by whether an event was signalled; output is produced only for signalled events. The announced time advance is the time to which the solver has integrated minus the current time.',
     ['histories', 'programs'], 'every model and every interleaving of inputs and internal events',
     'The one CVODE test receives no input in mid-step.',
     [S + 'cvode.h'], [('CVODE::ta/delta_int/delta_ext/delta_conf/output_func', S + 'cvode.h')],
     ['CVODE::cvode_reinit', 'CVODE::cvode_integrate_until', 'CVODE::cvode_delta_ext'])

prop('F01', 'The FMU wrapper follows the FMI calling sequence and its layout',
     'Calls into a functional mock-up unit follow the standard\'s mode rules: derivatives, event indicators and continuous states are set only in continuous-time mode after time and states have been set for the point in question, discrete updates are iterated to completion only in event mode, and the wrapper\'s notion of the mode always matches. Time is carried as the last state variable with unit derivative, and the Jacobian, offered only for units that provide directional derivatives, is laid out column by column for the whole state including time, zero where no derivative of the unit belongs. A step is completed only when time has moved on. A time event the unit announces (or an immediate event it requests) is the next time event reported, none otherwise. Variables are read and written by name with the reference and type the unit declares for them. A unit that is not of version 2.0, cannot be read or does not offer model exchange is refused with an exception; the others are loaded, instantiated and told the tolerance and start time.',
     ['histories', 'programs'], 'every unit and every sequence of solver calls and events',
     'No test in the build loads a unit; the FMI code is not even compiled by the tests.',
     [S + 'fmi.h'], [('ModelExchange', S + 'fmi.h')], ['fmi2_import_*'])

prop('R01', 'What is acquired is released exactly once',
     'Every object of the library that allocates storage or solver resources in its lifetime releases each of them exactly once, with the matching operation, when it is destroyed, and objects it documents as adopted are destroyed with it. Objects that merely refer to other objects leave them alone.',
     ['programs', 'histories'], 'every lifetime of every class that owns storage',
     'The tests do not check for leaks, and a missing or doubled release is silent.',
     [H + 'sched.h', S + 'hybrid.h', S + 'rk_45.h', S + 'corrected_euler.h', S + 'trap.h', S + 'spline.h', S + 'event_locators.h', S + 'cvode.h', S + 'fmi.h'],
     [('constructors and destructors', S + 'rk_45.h')], ['destructors'])

prop('R02', 'Solver arrays have room for every element used',
     'Every array, vector or matrix that a solver, event locator, interpolant, hybrid model or FMU wrapper allocates is long enough for every element it stores, reads or hands to a function for filling, whatever the numbers of state variables and event functions of the system: no element outside an allocation is touched, and none through a pointer that was never set.',
     ['programs', 'inputs'], 'every system with any number of state variables and event functions',
     'Writing an element past the end of a small allocation is usually silent, and the tests use systems in which the counts happen to be close.',
     [S + 'hybrid.h', S + 'rk_45.h', S + 'corrected_euler.h', S + 'trap.h', S + 'spline.h', S + 'event_locators.h', S + 'fmi.h'],
     [('Hybrid constructor', S + 'hybrid.h')], ['constructors'])

prop('R03', 'Pointers that may be null are tested before they are used',
     'Wherever the library follows a pointer that it may itself have left null (a coupled model that is not part of a simulation, a locator without interpolant, an optional directional derivative table, a call documented to return null), the conditions on the way there establish that it is not null, and no pointer is followed where they establish that it is.',
     ['programs', 'histories'], 'every order of public calls and every optional feature on or off',
     'Tests mostly build models before simulating them and switch few options, so most combinations of optional pointer and operation are never reached.',
     [H + 'models.h', S + 'event_locators.h', S + 'fmi.h'], [('Coupled::create_coupling', H + 'models.h'), ('fast_event_locator::find_events', S + 'event_locators.h')], ['Coupled', 'constructors'])

prop('X01', 'Cyclic pin graphs are handled without unbounded recursion',
     'Routing an event through pins that are connected in a cycle terminates.',
     ['programs'], 'every pin graph, including cyclic ones',
     'No test builds a cyclic pin graph.',
     [H + 'graph.h'], [('Graph::route', H + 'graph.h')], ['Graph::route'])

prop('X02', 'Simulated hybrid trajectories are accurate to the tolerance',
     'The trajectory computed for a hybrid system stays within the configured tolerance of the exact solution, and located events lie within the locator\'s tolerance of the true event times.',
     ['programs', 'inputs'], 'every system and tolerance',
     'Tests compare a few systems with closed-form solutions.',
     [S + 'rk_45.h', S + 'trap.h', S + 'event_locators.h'], [('integrate/find_events', S + 'rk_45.h')], ['Hybrid::getState'])

prop('X03', 'Simulation results do not depend on model addresses',
     'Two runs of the same model produce the same sequence of events regardless of where the models are placed in memory.',
     ['schedules', 'programs'], 'every placement of models in memory',
     'One placement per test run.',
     [H + 'simulator.h'], [('std::set of model pointers', H + 'simulator.h')], ['EventListener'])

prop('X04', 'Every simulation run makes progress in time',
     'A simulation does not execute infinitely many events without its clock advancing, and event location always terminates.',
     ['programs', 'histories'], 'every model',
     'Tests run models that are known to progress.',
     [H + 'simulator.h', S + 'event_locators.h'], [('execNextEvent', H + 'simulator.h'), ('find_events', S + 'event_locators.h')], ['Simulator::nextEventTime'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
