H = 'include/adevs/solvers/hybrid.h'
RULES = ['H01', 'H02']
def c(i, *ed):
    return (i, {H: list(ed)})
CI = """        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
        tentative_step();  // Take a tentative step
    }
"""
A = open('/repo/' + H).read()
def cut(a, b):
    i = A.index(a)
    return A[i:A.index(b, i)]
INT = cut('    void delta_int() {', '    /**\n     * @brief Do not override')
EXT = cut('    void delta_ext(', '    /**\n     * @brief Do not override')
CON = cut('    void delta_conf(', '    /// @brief Do not override.')
OUT = cut('    void output_func(std::list<adevs::PinValue<ValueType>> &yb) {', '  private:\n    ode_system<ValueType>* sys;  ')
TEN = cut('    void tentative_step() {', '};')
def d(i, blk, *ed):
    n = blk
    for a, b in ed:
        assert a in n, (i, a)
        n = n.replace(a, b, 1)
    return c(i, (blk, n))
CASES = [
 d('int-noearly', INT, ('            if (sigma > 0.0) {\n                return;\n            }\n', '')),
 d('int-always-early', INT, ('            if (sigma > 0.0) {\n                return;\n            }\n', '            return;\n')),
 d('int-noclear', INT, ('            missedOutput.clear();\n', '')),
 d('int-noaccum', INT, ('        e_accum += ta();\n', '')),
 d('int-accum-assign', INT, ('e_accum += ta();', 'e_accum = ta();')),
 d('int-noreset', INT, ('            e_accum = 0.0;\n', '')),
 d('int-reset-always', INT, ('            e_accum = 0.0;\n        }\n', '        }\n        e_accum = 0.0;\n')),
 d('int-happened', INT, ('event_happened = event_exists;', 'event_happened = event_happened || event_exists;')),
 d('int-q', INT, ('sys->internal_event(q_trial, event)', 'sys->internal_event(q, event)')),
 d('int-nocopy', INT, ("""        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
""", '')),
 d('int-copy-part', INT, ('for (int i = 0; i < sys->numVars(); i++)', 'for (int i = 0; i < sys->numVars() - 1; i++)')),
 d('int-copy-events', INT, ('for (int i = 0; i < sys->numVars(); i++)', 'for (int i = 0; i < sys->numEvents(); i++)')),
 d('int-copy-first', INT, ("""        if (event_exists)  // Execute the internal event
        {
            sys->internal_event(q_trial, event);
            e_accum = 0.0;
        }
        // Copy the new state vector to q
        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
""", """        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
        if (event_exists)  // Execute the internal event
        {
            sys->internal_event(q, event);
            e_accum = 0.0;
        }
""")),
 d('int-notent', INT, ('        tentative_step();  // Take a tentative step\n', '')),
 d('int-copy-only-event', INT, ("""        // Copy the new state vector to q
        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
""", """        // Copy the new state vector to q
        for (int i = 0; event_exists && i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
""")),
 d('ext-e-only', EXT, ('sys->external_event(q, e + e_accum, xb)', 'sys->external_event(q, e, xb)')),
 d('ext-noadvance', EXT, ('            solver->advance(q, e);  // Advance the state q by e\n', '')),
 d('ext-advance-accum', EXT, ('solver->advance(q, e);', 'solver->advance(q, e + e_accum);')),
 d('ext-nopost', EXT, ('            sys->postStep(q);\n', '')),
 d('ext-post-first', EXT, ('            solver->advance(q, e);  // Advance the state q by e\n', ''), ('            sys->postStep(q);\n', '            sys->postStep(q);\n            solver->advance(q, e);\n')),
 d('ext-h-alias', EXT, ('            double h = e;\n', ''), ('solver, h);', 'solver, e);')),
 d('ext-nosearch', EXT, ('if (event_exists) {', 'if (event_exists && e > 1.0) {')),
 d('ext-search-noE', EXT, ('if (event_exists) {', 'if (!event_exists) {')),
 d('ext-q-copy-missing', EXT, ("""            for (int i = 0; i < sys->numVars(); i++) {
                q_trial[i] = q[i];
            }
            solver->advance(q_trial, e);
""", '            solver->advance(q_trial, e);\n')),
 d('ext-noflag', EXT, ('                event[sys->numEvents()] = false;\n', '')),
 d('ext-noout', EXT, ('                output_func(missedOutput);\n', '')),
 d('ext-out-late', EXT, ('                output_func(missedOutput);\n                sys->confluent_event(q_trial, event, xb);\n', '                sys->confluent_event(q_trial, event, xb);\n                output_func(missedOutput);\n')),
 d('ext-internal', EXT, ('sys->confluent_event(q_trial, event, xb);', 'sys->internal_event(q_trial, event);')),
 d('ext-nocommit', EXT, ("""                sys->confluent_event(q_trial, event, xb);
                for (int i = 0; i < sys->numVars(); i++) {
                    q[i] = q_trial[i];
                }
""", """                sys->confluent_event(q_trial, event, xb);
""")),
 d('ext-accum', EXT, ('        e_accum = 0.0;\n', '        e_accum += e;\n')),
 d('ext-accum-only', EXT, ('        e_accum = 0.0;\n', '        if (!state_event_exists) {\n            e_accum = 0.0;\n        }\n')),
 d('ext-nocopyback', EXT, ("""        // Copy the new state to the trial solution
        for (int i = 0; i < sys->numVars(); i++) {
            q_trial[i] = q[i];
        }
""", '')),
 d('ext-happened', EXT, ('event_happened = true;', 'event_happened = event_exists;')),
 d('ext-both', EXT, ('        if (!state_event_exists)  // We didn', '        if (!state_event_exists || e_accum > 0.0)  // We didn')),
 d('conf-noE', CON, ('sys->external_event(q_trial, e_accum + ta(), xb)', 'sys->external_event(q_trial, ta(), xb)')),
 d('conf-int', CON, ('sys->confluent_event(q_trial, event, xb);', 'sys->internal_event(q_trial, event);\n            sys->external_event(q_trial, 0.0, xb);')),
 d('conf-sigma', CON, ('                sigma = 0.0;\n', '')),
 d('conf-qtrial', CON, ("""                for (int i = 0; i < sys->numVars(); i++) {
                    q_trial[i] = q[i];
                }
""", '')),
 d('conf-exists', CON, ('                event_exists = false;\n', '')),
 d('conf-ge', CON, ('            if (sigma > 0.0) {\n', '            if (sigma >= 0.0) {\n')),
 d('conf-noclear', CON, ('            missedOutput.clear();\n', '')),
 d('conf-accum', CON, ('        e_accum = 0.0;\n', '')),
 d('conf-happened', CON, ('event_happened = true;', 'event_happened = event_exists;')),
 d('out-nocheck', OUT, ('            if (event_exists) {\n                sys->output_func(q_trial, event, yb);\n            }\n', '            sys->output_func(q_trial, event, yb);\n')),
 d('out-q', OUT, ('            if (event_exists) {\n                sys->output_func(q_trial, event, yb);', '            if (event_exists) {\n                sys->output_func(q, event, yb);')),
 d('out-nosigma', OUT, ('            if (sigma == 0.0) {  // Confluent event\n                sys->output_func(q_trial, event, yb);\n            }\n', '')),
 d('out-sigma-always', OUT, ('            if (sigma == 0.0) {  // Confluent event\n                sys->output_func(q_trial, event, yb);\n            }\n', '            if (event_exists) {\n                sys->output_func(q_trial, event, yb);\n            }\n')),
 d('out-noheld', OUT, ('            for (auto iter : missedOutput) {\n                yb.push_back(iter);\n            }\n', '')),
 d('out-held-first', OUT, ('            for (auto iter : missedOutput) {\n                yb.push_back(iter);\n            }\n', '            yb.push_back(missedOutput.front());\n')),
 d('out-nopost', OUT, ('            sys->postStep(q_trial);\n', '')),
 d('out-post-late', OUT, ('            sys->postStep(q_trial);\n', ''), ('            if (event_exists) {\n                sys->output_func(q_trial, event, yb);\n            }\n', '            if (event_exists) {\n                sys->output_func(q_trial, event, yb);\n            }\n            sys->postStep(q_trial);\n')),
 d('ten-tev-trial', TEN, ('        double time_event = sys->time_event_func(q);\n        // Integrate up to that time at most\n        double step_size = solver->integrate(q_trial, time_event);\n', '        double step_size = solver->integrate(q_trial, adevs_inf<double>());\n        double time_event = sys->time_event_func(q);\n')),
 d('ten-tev-late', TEN, ('        double time_event = sys->time_event_func(q);\n', '        double time_event = sys->time_event_func(q_trial);\n'), ('tentative', 'tentative') ) if False else d('ten-lim', TEN, ('solver->integrate(q_trial, time_event)', 'solver->integrate(q_trial, 2.0 * time_event)')),
 d('ten-lt', TEN, ('time_event <= sigma', 'time_event < sigma')),
 d('ten-stepflag', TEN, ('time_event <= sigma', 'sigma <= time_event')),
 d('ten-flag-before', TEN, ('        bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);\n', '        event[sys->numEvents()] = time_event <= step_size;\n        bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);\n'), ('        event[sys->numEvents()] = time_event <= sigma;\n', '')),
 d('ten-flag-before2', TEN, ('        bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);\n', '        bool const at_time_event = time_event <= step_size;\n        bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);\n'), ('= time_event <= sigma;', '= at_time_event;')),
 d('ten-sigma-tev', TEN, ('std::min<double>(step_size, time_event)', 'time_event')),
 d('ten-sigma-max', TEN, ('std::min<double>(step_size, time_event)', 'std::max<double>(step_size, time_event)')),
 d('ten-exists-and', TEN, ('event[sys->numEvents()] || state_event_exists', 'event[sys->numEvents()] && state_event_exists')),
 d('ten-exists-only', TEN, ('event_exists = event[sys->numEvents()] || state_event_exists', 'event_exists = state_event_exists')),
 d('ten-exists-keep', TEN, ('event_exists = event[sys->numEvents()] || state_event_exists', 'event_exists = event_exists || event[sys->numEvents()] || state_event_exists')),
 d('ten-nopt', TEN, ('        sys->postTrialStep(q);\n', '')),
 d('ten-pt-trial', TEN, ('sys->postTrialStep(q);', 'sys->postTrialStep(q_trial);')),
 d('ten-q-q', TEN, ('find_events(event, q, q_trial, solver, step_size)', 'find_events(event, q_trial, q_trial, solver, step_size)')),
 d('ten-h', TEN, ('bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);', 'double h = step_size;\n        bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);')),
 c('ctor-noevent', ('        for (int i = 0; i <= sys->numEvents(); i++) {\n            event[i] = false;\n        }\n', '')),
 c('ctor-nocopy', ("""        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
        tentative_step();  // Take the first""", """        tentative_step();  // Take the first""")),
 c('ctor-nostep', ('        tentative_step();  // Take the first tentative step\n', '')),
 c('ctor-accum', ('event_finder(event_finder), e_accum(0.0)', 'event_finder(event_finder)')),
 c('ta-sigma', ("""        if (missedOutput.empty()) {
            return sigma;
        } else {
            return 0.0;
        }
""", '        return sigma;\n')),
 c('ta-swap', ("        if (missedOutput.empty()) {\n            return sigma;", "        if (!missedOutput.empty()) {\n            return sigma;")),
]
