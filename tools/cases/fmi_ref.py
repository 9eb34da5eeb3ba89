import sys
sys.path.insert(0, '/verif/tools/cases')
from fmi_bugs import d, H, B, AS, ST, SS, ENT, EVT, GS
RULES = ['F01']
PRIV = '  private:\n    // Reference to the FMU'
def h(code):
    return (PRIV, (PRIV, '  private:\n' + code + '    // Reference to the FMU'))
CONT = """    void to_cont_mode() {
        if (cont_time_mode) {
            return;
        }
        fmi2_status_t status = fmi2_import_enter_continuous_time_mode(fmu);
        assert(status == fmi2_status_ok);
        cont_time_mode = true;
    }
"""
SET = """    void set_point(double const* q) {
        int const last = this->numVars() - 1;
        fmi2_status_t status = fmi2_import_set_continuous_states(fmu, q, last);
        assert(status == fmi2_status_ok);
        status = fmi2_import_set_time(fmu, q[last]);
        assert(status == fmi2_status_ok);
    }
"""
DISC = """    void discrete(double* q) {
        if (cont_time_mode) {
            fmi2_import_enter_event_mode(fmu);
            cont_time_mode = false;
        }
        iterate_events();
        fmi2_import_get_continuous_states(fmu, q, this->numVars() - 1);
    }
"""
def body(k, code):
    b = B[k]
    return (k, (b[b.index('{'):], code))
ITER = B['ITER']
LOOP = ITER[ITER.index('    do {'):ITER.index('    if (eventInfo')]
TAIL = ITER[ITER.index('    if (eventInfo'):]
FM = H
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 d('base', ('DER', ('1.0', '1.0'))),
 d('helpers', h(CONT + SET), ('DER', (ENT, '    to_cont_mode();\n'), (ST + SS, '    set_point(q);\n')), ('SE', (ENT, '    to_cont_mode();\n'), (ST + SS, '    set_point(q);\n')), ('PT', (ST + SS, '    set_point(q);\n'))),
 d('throwing', ('DER', (AS, '    if (status != fmi2_status_ok) {\n        throw adevs::exception("FMU error");\n    }\n'))),
 d('discrete', h(DISC), body('IE', '{\n    discrete(q);\n}'), body('EE', '{\n    discrete(q);\n}'), body('CE', '{\n    discrete(q);\n}')),
 d('ce-calls-ie', body('CE', '{\n    ModelExchange<ValueType>::internal_event(q, state_event);\n}')),
 d('der-time-first', ('DER', ('    dq[this->numVars() - 1] = 1.0;\n', ''), (ENT, ENT + '    dq[this->numVars() - 1] = 1.0;\n'))),
 d('der-n', ('DER', ('    fmi2_status_t status;\n', '    fmi2_status_t status;\n    int const n = this->numVars() - 1;\n'), (ST, '    status = fmi2_import_set_time(fmu, q[n]);\n'), ('dq, this->numVars() - 1', 'dq, n'), ('dq[this->numVars() - 1]', 'dq[n]'))),
 d('se-pos', ('SE', ('this->numEvents() == 0', 'this->numEvents() < 1'))),
 d('se-wrap', ('SE', ('    if (this->numEvents() == 0) {\n        return;\n    }\n', '    int const events = this->numEvents();\n    if (!events) {\n        return;\n    }\n'), ('z, this->numEvents()', 'z, events'))),
 d('te-ternary', body('TE', '{\n    double const t = q[this->numVars() - 1];\n    return (next_time_event >= adevs_inf<double>()) ? adevs_inf<double>() : next_time_event - t;\n}')),
 d('te-plain', body('TE', '{\n    return next_time_event - q[this->numVars() - 1];\n}')),
 d('ps-nest', ('PS', ('    if (q[this->numVars() - 1] <= t_now) {\n        return;\n    }\n', '    double const t = q[this->numVars() - 1];\n    if (!(t > t_now)) {\n        return;\n    }\n'), ('t_now = q[this->numVars() - 1]', 't_now = t'))),
 d('ps-order', ('PS', ('    t_now = q[this->numVars() - 1];\n', ''), ('fmi2_import_set_time(fmu, t_now)', 'fmi2_import_set_time(fmu, q[this->numVars() - 1])'), ('    // Force an', '    t_now = q[this->numVars() - 1];\n    // Force an'))),
 d('ps-order2', ('PS', ('    status = fmi2_import_set_time(fmu, t_now);\n' + AS, ''), (SS, SS + '    status = fmi2_import_set_time(fmu, t_now);\n' + AS))),
 d('ps-init', ('PS', ('fmi2_boolean_t enterEventMode;', 'fmi2_boolean_t enterEventMode = fmi2_boolean_t(0);'), ('if (enterEventMode)', 'if (enterEventMode != 0)'))),
 d('pt-order', ('PT', (ST, ''), (SS, SS + ST))),
 d('ie-flag-first', ('IE', (EVT, '    if (cont_time_mode) {\n        cont_time_mode = false;\n        status = fmi2_import_enter_event_mode(fmu);\n        assert(status == fmi2_status_ok);\n    }\n'))),
 d('ie-flag-always', ('IE', ('        cont_time_mode = false;\n    }\n', '    }\n    cont_time_mode = false;\n'))),
 d('iter-while', ('ITER', (LOOP, '    bool more = true;\n    while (more) {\n        status = fmi2_import_new_discrete_states(fmu, &eventInfo);\n        assert(status == fmi2_status_ok);\n        more = eventInfo.newDiscreteStatesNeeded;\n    }\n'))),
 d('iter-forever', ('ITER', (LOOP, '    for (;;) {\n        status = fmi2_import_new_discrete_states(fmu, &eventInfo);\n        assert(status == fmi2_status_ok);\n        if (!eventInfo.newDiscreteStatesNeeded) {\n            break;\n        }\n    }\n'))),
 d('iter-first', ('ITER', (LOOP, '    status = fmi2_import_new_discrete_states(fmu, &eventInfo);\n    while (eventInfo.newDiscreteStatesNeeded) {\n        status = fmi2_import_new_discrete_states(fmu, &eventInfo);\n        assert(status == fmi2_status_ok);\n    }\n'))),
 d('iter-count', ('ITER', ('    do {\n', '    int rounds = 0;\n    do {\n        rounds++;\n'))),
 d('iter-ternary', ('ITER', ('    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    } else {\n        next_time_event = adevs_inf<double>();\n    }\n', '    next_time_event = eventInfo.nextEventTimeDefined ? eventInfo.nextEventTime : adevs_inf<double>();\n'))),
 d('iter-default', ('ITER', ('    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    } else {\n        next_time_event = adevs_inf<double>();\n    }\n', '    next_time_event = adevs_inf<double>();\n    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    }\n'))),
 d('iter-zero', ('ITER', ('    fmi2_event_info_t eventInfo;\n', '    fmi2_event_info_t eventInfo = {};\n'))),
 d('init-order', ('INIT', ('    cont_time_mode = true;\n', ''), ('    // Set initial value', '    cont_time_mode = true;\n    // Set initial value'))),
 d('init-q-first', ('INIT', ('    q[this->numVars() - 1] = t_now;\n', ''), ('    // Get starting', '    q[this->numVars() - 1] = t_now;\n    // Get starting'))),
 d('init-states-event', ('INIT', (GS, ''), ('    iterate_events();\n', '    iterate_events();\n' + GS))),
 d('jac-int', ('JAC', ('unsigned const N', 'int const N'), ('unsigned i = 0', 'int i = 0'))),
 d('jac-helper', h(CONT), ('JAC', (ENT, '    to_cont_mode();\n'))),
 d('jac-fill', ('JAC', ('    for (unsigned i = 0; i < (N + 1) * (N + 1); i++) {\n        J[i] = 0.0;\n    }\n', '    std::fill(J, J + (N + 1) * (N + 1), 0.0);\n'))),
 d('jac-size', ('JAC', ('    for (unsigned i = 0; i < (N + 1) * (N + 1); i++) {\n', '    unsigned const size = (N + 1) * (N + 1);\n    for (unsigned i = 0; i < size; i++) {\n'))),
 d('jac-split', ('JAC', ('    if (J == nullptr || jac_col == nullptr) {\n        return jac_col != nullptr;\n    }\n', '    if (jac_col == nullptr) {\n        return false;\n    }\n    if (J == nullptr) {\n        return true;\n    }\n'))),
 d('jac-numvars', ('JAC', ('J + state_var * (N + 1)', '&J[state_var * this->numVars()]'))),
 d('gv-else', ('GV', ('    if (var_info.var_type == fmi2_base_type_int)', '    else if (var_info.var_type == fmi2_base_type_int)'))),
 d('gv-switch', body('GV', """{
    fmi2_status_t status;
    variable_info_t const &info = name_to_variable_map[name];
    switch (info.var_type) {
        case fmi2_base_type_real: {
            fmi2_real_t val;
            status = fmi2_import_get_real(fmu, &info.ref, 1, &val);
            assert(status == fmi2_status_ok);
            return val;
        }
        case fmi2_base_type_int: {
            fmi2_integer_t val;
            status = fmi2_import_get_integer(fmu, &info.ref, 1, &val);
            assert(status == fmi2_status_ok);
            return val;
        }
        case fmi2_base_type_bool: {
            fmi2_boolean_t val;
            status = fmi2_import_get_boolean(fmu, &info.ref, 1, &val);
            assert(status == fmi2_status_ok);
            return val;
        }
        default:
            break;
    }
    return 0;
}""")),
 d('ctor-loop', ('CTOR', ('        variable_info_t info;\n        info.ref = fmi2_import_get_variable_vr(var);\n        info.var_type = fmi2_import_get_variable_base_type(var);\n        name_to_variable_map[name] = info;\n', '        variable_info_t &info = name_to_variable_map[name];\n        info.ref = fmi2_import_get_variable_vr(var);\n        info.var_type = fmi2_import_get_variable_base_type(var);\n'))),
 d('ctor-n', ('CTOR', ('        jac_col = new', '        int const n = this->numVars() - 1;\n        jac_col = new'), ('jac_col[i] = this->numVars() - 1 + i', 'jac_col[i] = n + i'), ('i < this->numVars() - 1', 'i < n'))),
 d('ctor-two', ('CTOR', ('            jac_v[i] = 1.0;\n        }\n', '        }\n        std::fill(jac_v, jac_v + this->numVars() - 1, 1.0);\n'))),
 c('ctor-notnot', FM, ('    if (version != fmi_version_2_0_enu) {\n        throw', '    if (!(version == fmi_version_2_0_enu)) {\n        throw')),
 c('ctor-null', FM, ('    if (!fmu) {', '    if (fmu == nullptr) {')),
 c('ctor-me', FM, ('if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs)', 'if (fmi2_import_get_fmu_kind(fmu) != fmi2_fmu_kind_me)')),
 c('ctor-caplocal', FM, ('    if (fmi2_import_get_capability(fmu, fmi2_me_providesDirectionalDerivatives)) {', '    bool const can = fmi2_import_get_capability(fmu, fmi2_me_providesDirectionalDerivatives) != 0;\n    if (can) {')),
 c('ctor-capgt', FM, ('    if (fmi2_import_get_capability(fmu, fmi2_me_providesDirectionalDerivatives)) {', '    if (fmi2_import_get_capability(fmu, fmi2_me_providesDirectionalDerivatives) > 0) {')),
 c('info-brace', FM, ('    fmi2_event_info_t eventInfo;', '    fmi2_event_info_t eventInfo = {};'), ('    eventInfo.newDiscreteStatesNeeded = false;\n    eventInfo.nextEventTimeDefined = false;\n', '')),
 c('set-switch', FM, ('    if (var_info.var_type == fmi2_base_type_bool) {\n        fmi2_boolean_t val = std::any_cast', '    bool const flag = var_info.var_type == fmi2_base_type_bool;\n    if (flag) {\n        fmi2_boolean_t val = std::any_cast')),
 c('jac-fill', FM, ('    for (unsigned i = 0; i < (N + 1) * (N + 1); i++) {\n        J[i] = 0.0;\n    }', '    std::fill(J, J + (N + 1) * (N + 1), 0.0);')),
]
