H = 'include/adevs/solvers/fmi.h'
RULES = ['F01']
A = open('/repo/' + H).read()
def cut(a, b):
    i = A.index(a)
    return A[i:A.index(b, i)]
E = 'template <typename ValueType>\n'
def fn(n):
    i = A.index('ModelExchange<ValueType>::' + n + '(')
    j = A.find('\n\n' + E, i)
    if j < 0:
        j = A.index('\n\n}', i)
    return A[i:j]
NAMES = {'INIT': 'init', 'DER': 'der_func', 'SE': 'state_event_func', 'TE': 'time_event_func', 'PS': 'postStep', 'PT': 'postTrialStep', 'IE': 'internal_event',
         'EE': 'external_event', 'CE': 'confluent_event', 'ITER': 'iterate_events', 'JAC': 'get_jacobian', 'GV': 'get_variable', 'SV': 'set_variable', 'CTOR': 'ModelExchange'}
B = {k: fn(v) for k, v in NAMES.items()}
def d(i, *eds):
    l = []
    for blk, *ed in eds:
        n = blk = B.get(blk, blk)
        for a, b in ed:
            assert a in n, (i, a)
            n = n.replace(a, b, 1)
        l.append((blk, n))
    return (i, {H: l})
AS = '    assert(status == fmi2_status_ok);\n'
ST = '    status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);\n' + AS
SS = '    status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);\n' + AS
ENT = """    if (!cont_time_mode) {
        status = fmi2_import_enter_continuous_time_mode(fmu);
        assert(status == fmi2_status_ok);
        cont_time_mode = true;
    }
"""
EVT = """    if (cont_time_mode) {
        status = fmi2_import_enter_event_mode(fmu);
        assert(status == fmi2_status_ok);
        cont_time_mode = false;
    }
"""
GS = '    status = fmi2_import_get_continuous_states(fmu, q, this->numVars() - 1);\n' + AS
FM = H
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 d('der-nomode', ('DER', (ENT, ''))),
 d('der-norecord', ('DER', ('        cont_time_mode = true;\n', ''))),
 d('der-notime', ('DER', (ST, ''))),
 d('der-nostates', ('DER', (SS, ''))),
 d('der-swap', ('DER', ('    status = fmi2_import_get_derivatives(fmu, dq, this->numVars() - 1);\n' + AS, ''), (ST, '    status = fmi2_import_get_derivatives(fmu, dq, this->numVars() - 1);\n' + AS + ST))),
 d('der-tnow', ('DER', ('set_time(fmu, q[this->numVars() - 1])', 'set_time(fmu, t_now)'))),
 d('der-count', ('DER', ('get_derivatives(fmu, dq, this->numVars() - 1)', 'get_derivatives(fmu, dq, this->numVars())'))),
 d('der-nodt', ('DER', ('    dq[this->numVars() - 1] = 1.0;\n', ''))),
 d('der-dt0', ('DER', ('= 1.0', '= 0.0'))),
 d('der-lazy', ('DER', (SS, '    if (q[this->numVars() - 1] > t_now) {\n' + SS + '    }\n'))),
 d('se-nomode', ('SE', (ENT, ''))),
 d('se-mode-inv', ('SE', ('if (!cont_time_mode)', 'if (cont_time_mode)'))),
 d('se-notime', ('SE', (ST, ''))),
 d('se-nostates', ('SE', (SS, ''))),
 d('se-count', ('SE', ('get_event_indicators(fmu, z, this->numEvents())', 'get_event_indicators(fmu, z, this->numVars())'))),
 d('se-skip', ('SE', ('this->numEvents() == 0', 'this->numEvents() <= 1'))),
 d('te-abs', ('TE', ('next_time_event - q[this->numVars() - 1]', 'next_time_event'))),
 d('te-tnow', ('TE', ('next_time_event - q[this->numVars() - 1]', 'next_time_event - t_now'))),
 d('te-q0', ('TE', ('q[this->numVars() - 1]', 'q[0]'))),
 d('te-inv', ('TE', ('next_time_event < adevs_inf', 'next_time_event >= adevs_inf'))),
 d('ps-nostates', ('PS', (SS, ''))),
 d('ps-notime', ('PS', ('    status = fmi2_import_set_time(fmu, t_now);\n' + AS, ''))),
 d('ps-oldtime', ('PS', ('    t_now = q[this->numVars() - 1];\n', ''), ('enterEventMode, &terminateSimulation);\n' + AS, 'enterEventMode, &terminateSimulation);\n' + AS + '    t_now = q[this->numVars() - 1];\n'))),
 d('ps-nonow', ('PS', ('    t_now = q[this->numVars() - 1];\n', ''), ('set_time(fmu, t_now)', 'set_time(fmu, q[this->numVars() - 1])'))),
 d('ps-noevent', ('PS', ('    if (enterEventMode) {\n        next_time_event = t_now;\n    }\n', ''))),
 d('ps-event-inv', ('PS', ('if (enterEventMode)', 'if (!enterEventMode)'))),
 d('ps-event-term', ('PS', ('if (enterEventMode)', 'if (terminateSimulation)'))),
 d('ps-event-mode', ('PS', ('        next_time_event = t_now;\n', '        next_time_event = t_now;\n        fmi2_import_enter_event_mode(fmu);\n'))),
 d('ps-event-iter', ('PS', ('        next_time_event = t_now;\n', '        next_time_event = t_now;\n        iterate_events();\n'))),
 d('ps-event-early', ('PS', ('    t_now = q[this->numVars() - 1];\n', ''), ('    if (enterEventMode', '    double const last = t_now;\n    t_now = q[this->numVars() - 1];\n    if (enterEventMode'), ('next_time_event = t_now', 'next_time_event = last'), ('set_time(fmu, t_now)', 'set_time(fmu, q[this->numVars() - 1])'))),
 d('ps-late', ('PS', ('q[this->numVars() - 1] <= t_now', 'q[this->numVars() - 1] < next_time_event'))),
 d('ps-nocomplete', ('PS', ('    status =\n        fmi2_import_completed_integrator_step(fmu, true, &enterEventMode, &terminateSimulation);\n', '    enterEventMode = false;\n'))),
 d('pt-notime', ('PT', (ST, ''))),
 d('pt-nostates', ('PT', (SS, ''))),
 d('pt-tnow', ('PT', ('set_time(fmu, q[this->numVars() - 1])', 'set_time(fmu, t_now)'))),
 d('pt-complete', ('PT', (SS, SS + '    fmi2_boolean_t a, b;\n    fmi2_import_completed_integrator_step(fmu, true, &a, &b);\n'))),
 d('ie-nomode', ('IE', (EVT, ''))),
 d('ie-norecord', ('IE', ('        cont_time_mode = false;\n', ''))),
 d('ie-norecord2', ('IE', ('if (cont_time_mode)', 'if (true)'))),
 d('ie-noiter', ('IE', ('    iterate_events();\n', ''))),
 d('ie-cond-iter', ('IE', ('    iterate_events();\n', '    if (next_time_event <= t_now) {\n        iterate_events();\n    }\n'))),
 d('ie-noupd', ('IE', (GS, ''))),
 d('ie-upd-first', ('IE', (GS, ''), ('    iterate_events();\n', GS + '    iterate_events();\n'))),
 d('ie-count', ('IE', ('(fmu, q, this->numVars() - 1)', '(fmu, q, this->numVars())'))),
 d('ee-nomode', ('EE', (EVT, ''))),
 d('ee-norecord', ('EE', ('        cont_time_mode = false;\n', ''))),
 d('ee-noiter', ('EE', ('    iterate_events();\n', ''))),
 d('ee-noupd', ('EE', (GS, ''))),
 d('ee-setstates', ('EE', ('    iterate_events();\n', SS + '    iterate_events();\n'))),
 d('ce-nomode', ('CE', (EVT, ''))),
 d('ce-norecord', ('CE', ('        cont_time_mode = false;\n', ''))),
 d('ce-mode-after', ('CE', (EVT, ''), ('    iterate_events();\n', '    iterate_events();\n' + EVT))),
 d('ce-noupd', ('CE', (GS, ''))),
 d('iter-once', ('ITER', ('    do {\n', '    {\n'), ('    } while (eventInfo.newDiscreteStatesNeeded);\n', '    }\n'))),
 d('iter-bound', ('ITER', ('    do {\n', '    int n = 0;\n    do {\n'), ('while (eventInfo.newDiscreteStatesNeeded)', 'while (eventInfo.newDiscreteStatesNeeded && ++n < 10)'))),
 d('iter-terminate', ('ITER', ('while (eventInfo.newDiscreteStatesNeeded)', 'while (eventInfo.valuesOfContinuousStatesChanged)'))),
 d('iter-inv', ('ITER', ('while (eventInfo.newDiscreteStatesNeeded)', 'while (!eventInfo.newDiscreteStatesNeeded)'))),
 d('iter-noinf', ('ITER', (' else {\n        next_time_event = adevs_inf<double>();\n    }', ''))),
 d('iter-ifinf', ('ITER', ('if (eventInfo.nextEventTimeDefined)', 'if (!eventInfo.nextEventTimeDefined)'))),
 d('iter-always', ('ITER', ('    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    } else {\n        next_time_event = adevs_inf<double>();\n    }\n', '    next_time_event = eventInfo.nextEventTime;\n'))),
 d('iter-rel', ('ITER', ('next_time_event = eventInfo.nextEventTime;', 'next_time_event = t_now + eventInfo.nextEventTime;'))),
 d('iter-min', ('ITER', ('next_time_event = eventInfo.nextEventTime;', 'next_time_event = std::min(next_time_event, eventInfo.nextEventTime);'))),
 d('iter-first', ('ITER', ('        assert(status == fmi2_status_ok);\n    } while', '        assert(status == fmi2_status_ok);\n        if (eventInfo.nextEventTimeDefined) {\n            break;\n        }\n    } while'))),
 d('init-noiter', ('INIT', ('    iterate_events();\n', ''))),
 d('init-iter-late', ('INIT', ('    iterate_events();\n', ''), ('    q[this->numVars() - 1] = t_now;\n', '    q[this->numVars() - 1] = t_now;\n    iterate_events();\n'))),
 d('init-noenter', ('INIT', ('    status = fmi2_import_enter_continuous_time_mode(fmu);\n' + AS, ''))),
 d('init-norecord', ('INIT', ('    cont_time_mode = true;\n', ''))),
 d('init-notime', ('INIT', ('    q[this->numVars() - 1] = t_now;\n', ''))),
 d('init-iter-in', ('INIT', ('    iterate_events();\n', ''), ('    // Done with init', '    iterate_events();\n    // Done with init'))),
 d('init-states-early', ('INIT', (GS, ''), ('    iterate_events();\n', GS + '    iterate_events();\n'))),
 d('jac-nomode', ('JAC', (ENT, ''))),
 d('jac-norecord', ('JAC', ('        cont_time_mode = true;\n', ''))),
 d('jac-stride', ('JAC', ('J + state_var * (N + 1)', 'J + state_var * N'))),
 d('jac-notime', ('JAC', ('    status = fmi2_import_set_time(fmu, q[N]);\n' + AS, ''))),
 d('jac-nostates', ('JAC', ('    status = fmi2_import_set_continuous_states(fmu, q, N);\n' + AS, ''))),
 d('jac-zero', ('JAC', ('i < (N + 1) * (N + 1)', 'i < N * N'))),
 d('jac-cols', ('JAC', ('state_var < N', 'state_var + 1 < N'))),
 d('jac-cols1', ('JAC', ('state_var = 0', 'state_var = 1'))),
 d('jac-count', ('JAC', ('jac_col, N, jac_v', 'jac_col, N + 1, jac_v'))),
 d('jac-ret', ('JAC', ('return jac_col != nullptr;', 'return true;'))),
 d('jac-ret2', ('JAC', ('return jac_col != nullptr;', 'return false;'))),
 d('jac-row', ('JAC', ('fmu, &state_var, 1, jac_col, N', 'fmu, &jac_col[state_var], 1, jac_col, N'))),
 d('gv-type', ('GV', ('fmi2_base_type_int', 'fmi2_base_type_bool'), ('== fmi2_base_type_bool) {\n        fmi2_boolean', '== fmi2_base_type_int) {\n        fmi2_boolean'))),
 d('gv-drop', ('GV', ('    if (var_info.var_type == fmi2_base_type_bool) {\n        fmi2_boolean_t val;\n        status = fmi2_import_get_boolean(fmu, &var_info.ref, 1, &val);\n        assert(status == fmi2_status_ok);\n        return val;\n    }\n', ''))),
 d('sv-drop', ('SV', ('fmi2_import_set_integer(fmu', 'fmi2_import_set_boolean(fmu'))),
 d('ctor-N', ('CTOR', ('number_of_continuous_states(fmu) + 1', 'number_of_continuous_states(fmu)'))),
 d('ctor-col', ('CTOR', ('jac_col[i] = this->numVars() - 1 + i', 'jac_col[i] = this->numVars() + i'))),
 d('ctor-col0', ('CTOR', ('jac_col[i] = this->numVars() - 1 + i', 'jac_col[i] = i'))),
 d('ctor-v', ('CTOR', ('jac_v[i] = 1.0', 'jac_v[i] = 0.0'))),
 d('ctor-next', ('CTOR', ('next_time_event(adevs_inf<double>())', 'next_time_event(0.0)'))),
 d('ctor-mode', ('CTOR', ('cont_time_mode(false)', 'cont_time_mode(true)'))),
 d('ctor-vr', ('CTOR', ('info.ref = fmi2_import_get_variable_vr(var)', 'info.ref = i'))),
 d('ctor-exp', ('CTOR', ('    fmi2_import_setup_experiment(fmu, true, tolerance, 0.0, false, -1.0);\n', ''))),
 d('ctor-list', ('CTOR', ('size_t i = 0; i < num_variables', 'size_t i = 1; i < num_variables'))),
 d('ps-noguard', ('PS', ('    if (q[this->numVars() - 1] <= t_now) {\n        return;\n    }\n', ''))),
 c('set-else-bool', FM, ('    if (var_info.var_type == fmi2_base_type_bool) {\n        fmi2_boolean_t val = std::any_cast', '    {\n        fmi2_boolean_t val = std::any_cast')),
 c('ctor-version', FM, ('version != fmi_version_2_0_enu', 'version == fmi_version_1_enu')),
 c('ctor-parse', FM, ('    if (!fmu) {\n        throw adevs::exception("Error parsing FMI XML");\n    }\n', '')),
 c('ctor-kind', FM, ('if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs)', 'if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_unknown)')),
 c('ctor-tolerance', FM, ('(fmu, true, tolerance, 0.0, false, -1.0)', '(fmu, false, tolerance, 0.0, false, -1.0)')),
 c('ctor-stop', FM, ('(fmu, true, tolerance, 0.0, false, -1.0)', '(fmu, true, tolerance, 0.0, true, -1.0)')),
 c('ctor-cap', FM, ('if (fmi2_import_get_capability(fmu, fmi2_me_providesDirectionalDerivatives))', 'if (this->numVars() > 1)')),
 c('info-blank', FM, ('    eventInfo.nextEventTimeDefined = false;\n', '')),
 c('jac-time', FM, ('    // The derivative of time is constant', '    J[(N + 1) * (N + 1) - 1] = 1.0;\n    // The derivative of time is constant')),
 c('q-slot', FM, ('    q[this->numVars() - 1] = t_now;', '    q[this->numEvents()] = t_now;')),
]
