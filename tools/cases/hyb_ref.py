import sys
sys.path.insert(0, '/verif/tools/cases')
from hyb_bugs import c, d, H, INT, EXT, CON, OUT, TEN, A
RULES = ['H01', 'H02']
CP = """        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
"""
CPT = """        for (int i = 0; i < sys->numVars(); i++) {
            q_trial[i] = q[i];
        }
"""
ADD = '  private:\n    ode_system<ValueType>* sys;  '
def helper(code):
    return (ADD, '  private:\n' + code + '    ode_system<ValueType>* sys;  ')
ALL = [INT, EXT, CON]
CASES = [
 c('base', ('tentative_step();  // Take the first', 'tentative_step();  // Take  the first')),
 c('commit-helper', (INT, INT.replace(CP, '        commit();\n')), (CON, CON.replace(CP, '        commit();\n')), helper("""    void commit() {
        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
    }
""")),
 c('copy-helper', (INT, INT.replace(CP, '        copy(q_trial, q);\n')), (CON, CON.replace(CP, '        copy(q_trial, q);\n')), (EXT, EXT.replace(CPT, '        copy(q, q_trial);\n')), helper("""    void copy(double const* from, double* to) const {
        std::copy(from, from + sys->numVars(), to);
    }
""")),
 c('memcpy', (INT, INT.replace(CP, '        memcpy(q, q_trial, sizeof(double) * sys->numVars());\n'))),
 c('commit-and-step', (INT, INT.replace(CP + '        tentative_step();  // Take a tentative step\n', '        finish();\n')), (CON, CON.replace(CP + '        tentative_step();  // Take a tentative step\n', '        finish();\n')), helper("""    void finish() {
        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
        tentative_step();
    }
""")),
 d('int-early', INT, ("""        if (!missedOutput.empty()) {
            missedOutput.clear();
            if (sigma > 0.0) {
                return;
            }
        }
""", """        bool const held = !missedOutput.empty();
        missedOutput.clear();
        if (held && sigma > 0.0) {
            return;
        }
""")),
 d('int-sigma', INT, ('e_accum += ta();', 'e_accum += sigma;')),
 d('int-else', INT, ("""        e_accum += ta();
        // Execute any discrete events
        event_happened = event_exists;
        if (event_exists)  // Execute the internal event
        {
            sys->internal_event(q_trial, event);
            e_accum = 0.0;
        }
""", """        event_happened = event_exists;
        if (!event_exists) {
            e_accum = e_accum + ta();
        } else {
            sys->internal_event(q_trial, event);
            e_accum = 0.0;
        }
""")),
 d('int-happened', INT, ('        event_happened = event_exists;\n', ''), ('            e_accum = 0.0;\n        }\n', '            e_accum = 0.0;\n            event_happened = true;\n        } else {\n            event_happened = false;\n        }\n')),
 d('int-reset-first', INT, ("            sys->internal_event(q_trial, event);\n            e_accum = 0.0;\n", "            e_accum = 0.0;\n            sys->internal_event(q_trial, event);\n")),
 d('ext-named', EXT, ('            sys->external_event(q, e + e_accum, xb);\n', '            double const elapsed = e_accum + e;\n            sys->external_event(q, elapsed, xb);\n')),
 d('ext-return', EXT, ('        if (!state_event_exists)  // We didn\'t miss an event\n        {', '        if (!state_event_exists) {')),
 d('ext-trial', EXT, ("""            solver->advance(q, e);  // Advance the state q by e
            // Let the model adjust algebraic variables, etc. for the new state
            sys->postStep(q);
            // Process the discrete input
            sys->external_event(q, e + e_accum, xb);
        }
""", """            for (int i = 0; i < sys->numVars(); i++) {
                q_trial[i] = q[i];
            }
            solver->advance(q_trial, e);
            sys->postStep(q_trial);
            sys->external_event(q_trial, e + e_accum, xb);
            for (int i = 0; i < sys->numVars(); i++) {
                q[i] = q_trial[i];
            }
        }
""")),
 d('ext-missed-helper', EXT, ("""                event[sys->numEvents()] = false;
                output_func(missedOutput);
                sys->confluent_event(q_trial, event, xb);
""", """                handle_missed(xb);
"""),),
 d('ext-commit-late', EXT, ("""                for (int i = 0; i < sys->numVars(); i++) {
                    q[i] = q_trial[i];
                }
            }
        }
""", """            }
        }
        if (state_event_exists) {
            for (int i = 0; i < sys->numVars(); i++) {
                q[i] = q_trial[i];
            }
        }
""")),
 d('ext-accum-in', EXT, ('        e_accum = 0.0;\n', ''), ('        bool state_event_exists = false;\n', '        bool state_event_exists = false;\n        double const accumulated = e_accum;\n        e_accum = 0.0;\n'), ('e + e_accum', 'e + accumulated')),
 d('ext-find-if', EXT, ("            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);\n            // We missed an event\n            if (state_event_exists) {", "            if (event_finder->find_events(event, q, q_trial, solver, h)) {\n                state_event_exists = true;")),
 d('conf-tern', CON, ("""        if (event_exists) {
            sys->confluent_event(q_trial, event, xb);
        } else {
            sys->external_event(q_trial, e_accum + ta(), xb);
        }
""", """        if (!event_exists) {
            sys->external_event(q_trial, ta() + e_accum, xb);
        } else {
            sys->confluent_event(q_trial, event, xb);
        }
""")),
 d('conf-sigma', CON, ('e_accum + ta()', 'e_accum + sigma')),
 d('conf-direct', CON, ("""            if (sigma > 0.0) {
                // The input arrives in the current state with no time elapsed
                event_exists = false;
                sigma = 0.0;
                for (int i = 0; i < sys->numVars(); i++) {
                    q_trial[i] = q[i];
                }
            }
        }
""", """            if (sigma > 0.0) {
                for (int i = 0; i < sys->numVars(); i++) {
                    q_trial[i] = q[i];
                }
                event_happened = true;
                sys->external_event(q_trial, e_accum, xb);
                e_accum = 0.0;
                for (int i = 0; i < sys->numVars(); i++) {
                    q[i] = q_trial[i];
                }
                tentative_step();
                return;
            }
        }
""")),
 d('out-splice', OUT, ('            for (auto iter : missedOutput) {\n                yb.push_back(iter);\n            }\n', '            yb.insert(yb.end(), missedOutput.begin(), missedOutput.end());\n')),
 d('out-ref', OUT, ('for (auto iter : missedOutput)', 'for (auto const &iter : missedOutput)')),
 d('out-iter', OUT, ('            for (auto iter : missedOutput) {\n                yb.push_back(iter);\n            }\n', '            for (auto it = missedOutput.begin(); it != missedOutput.end(); it++) {\n                yb.push_back(*it);\n            }\n')),
 d('out-flip', OUT, ("        if (!missedOutput.empty()) {\n", "        bool const held = missedOutput.size() > 0;\n        if (held) {\n")),
 d('out-early', OUT, ('            if (event_exists) {\n                sys->output_func(q_trial, event, yb);\n            }\n', '            if (!event_exists) {\n                return;\n            }\n            sys->output_func(q_trial, event, yb);\n')),
 d('out-exists-sigma', OUT, ('if (sigma == 0.0) {', 'if (event_exists && !(sigma > 0.0)) {')),
 d('ten-flag', TEN, ('        event[sys->numEvents()] = time_event <= sigma;\n        event_exists = event[sys->numEvents()] || state_event_exists;\n', '        bool const time_event_reached = !(sigma < time_event);\n        event[sys->numEvents()] = time_event_reached;\n        event_exists = time_event_reached || state_event_exists;\n')),
 d('ten-flag-if', TEN, ('        event[sys->numEvents()] = time_event <= sigma;\n        event_exists = event[sys->numEvents()] || state_event_exists;\n', '        event_exists = state_event_exists;\n        event[sys->numEvents()] = false;\n        if (time_event <= sigma) {\n            event[sys->numEvents()] = true;\n            event_exists = true;\n        }\n')),
 d('ten-min', TEN, ('sigma = std::min<double>(step_size, time_event);', 'sigma = (time_event < step_size) ? time_event : step_size;')),
 d('ten-min-if', TEN, ('sigma = std::min<double>(step_size, time_event);', 'sigma = step_size;\n        if (time_event < sigma) {\n            sigma = time_event;\n        }')),
 d('ten-fmin', TEN, ('std::min<double>(step_size, time_event)', 'fmin(time_event, step_size)')),
 d('ten-step', TEN, ('time_event <= sigma', 'time_event <= step_size')),
 d('ten-direct', TEN, ('double step_size = solver->integrate(q_trial, time_event);', 'sigma = solver->integrate(q_trial, time_event);'), ('solver, step_size)', 'solver, sigma)'), ('sigma = std::min<double>(step_size, time_event);', 'sigma = std::min<double>(sigma, time_event);')),
 d('ten-pt-early', TEN, ('        sys->postTrialStep(q);\n', ''), ('        // Find the time advance', '        sys->postTrialStep(q);\n        // Find the time advance')),
 d('ten-locals', TEN, ('        double time_event = sys->time_event_func(q);\n', '        int const time_flag = sys->numEvents();\n        double const time_event = sys->time_event_func(q);\n'), ('event[sys->numEvents()] = time_event <= sigma;', 'event[time_flag] = (sigma >= time_event);'), ('event_exists = event[sys->numEvents()]', 'event_exists = event[time_flag]')),
 c('ta-tern', ("""        if (missedOutput.empty()) {
            return sigma;
        } else {
            return 0.0;
        }
""", '        return missedOutput.empty() ? sigma : 0.0;\n')),
 c('ta-flip', ("""        if (missedOutput.empty()) {
            return sigma;
        } else {
            return 0.0;
        }
""", '        if (!missedOutput.empty()) {\n            return 0.0;\n        }\n        return sigma;\n')),
 c('ctor-fill', ('        for (int i = 0; i <= sys->numEvents(); i++) {\n            event[i] = false;\n        }\n', '        std::fill(event, event + sys->numEvents() + 1, false);\n')),
 c('ctor-memset', ('        for (int i = 0; i <= sys->numEvents(); i++) {\n            event[i] = false;\n        }\n', '        memset(event, 0, sizeof(bool) * (sys->numEvents() + 1));\n')),
 c('ctor-zero-new', ('event = new bool[sys->numEvents() + 1];', 'event = new bool[sys->numEvents() + 1]();'), ('        for (int i = 0; i <= sys->numEvents(); i++) {\n            event[i] = false;\n        }\n', '')),
 c('ctor-init-q', ('        sys->init(q_trial);  // Get the initial state of the model\n        for (int i = 0; i < sys->numVars(); i++) {\n            q[i] = q_trial[i];\n        }\n', '        sys->init(q);\n        for (int i = 0; i < sys->numVars(); i++) {\n            q_trial[i] = q[i];\n        }\n')),
 c('ctor-order', ('        event_exists = event_happened = false;\n        sys->init(q_trial);  // Get the initial state of the model\n', '        sys->init(q_trial);\n        event_happened = false;\n        event_exists = false;\n')),
]
_i = [k for k, x in enumerate(CASES) if x[0] == 'ext-missed-helper'][0]
CASES[_i] = (CASES[_i][0], {H: CASES[_i][1][H] + [helper("""    void handle_missed(std::list<adevs::PinValue<ValueType>> const &xb) {
        event[sys->numEvents()] = false;
        output_func(missedOutput);
        sys->confluent_event(q_trial, event, xb);
    }
""")]})
