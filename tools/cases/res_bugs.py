I = 'include/adevs/'
S = I + 'solvers/'
RULES = ['R01']
RK, CE, TR, EL, HY, SP, CV, FM, SC = S + 'rk_45.h', S + 'corrected_euler.h', S + 'trap.h', S + 'event_locators.h', S + 'hybrid.h', S + 'spline.h', S + 'cvode.h', S + 'fmi.h', I + 'sched.h'
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 c('rk-leak-t', RK, ('    delete[] t;\n', '')),
 c('rk-twice', RK, ('    delete[] t;\n', '    delete[] t;\n    delete[] qq;\n')),
 c('rk-five', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];', '    for (int i = 0; i < 5; i++) {\n        delete[] k[i];')),
 c('rk-from-one', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];', '    for (int i = 1; i < 6; i++) {\n        delete[] k[i];')),
 c('rk-same', RK, ('        delete[] k[i];', '        delete[] k[0];')),
 c('rk-scalar-delete', RK, ('        delete[] k[i];', '        delete k[i];')),
 c('rk-deletes-system', RK, ('    delete[] t;\n', '    delete[] t;\n    delete this->sys;\n')),
 c('rk-qq-is-t', RK, ('    t = new double[sys->numVars()];', '    t = qq;')),
 c('rk-copyable', RK, ('rk_45(rk_45 const &) = delete;', 'rk_45(rk_45 const &) = default;')),
 c('rk-realloc', RK, ('double rk_45<ValueType>::trial_step(double step) {\n', 'double rk_45<ValueType>::trial_step(double step) {\n    t = new double[this->sys->numVars()];\n')),
 c('rk-local', RK, ('double rk_45<ValueType>::trial_step(double step) {\n', 'double rk_45<ValueType>::trial_step(double step) {\n    double* tmp = new double[this->sys->numVars()];\n    tmp[0] = step;\n')),
 c('ce-leak-k', CE, ('        delete[] k[i];', '        ;')),
 c('ce-one', CE, ('    for (int i = 0; i < 2; i++) {\n        delete[] k[i];', '    for (int i = 0; i < 1; i++) {\n        delete[] k[i];')),
 c('loc-z1', EL, ('    delete[] z[1];\n', '')),
 c('loc-z0-twice', EL, ('    delete[] z[1];\n', '    delete[] z[0];\n')),
 c('fast-zf', EL, ('    delete[] zf;\n', '')),
 c('fast-p-array', EL, ('        delete p;\n', '        delete[] p;\n')),
 c('fast-guard', EL, ('    if (p != NULL) {\n        delete[] dq0;', '    if (p == NULL) {\n        delete[] dq0;')),
 c('fast-leak-spline', EL, ('        delete p;\n', '')),
 c('fast-leak-uninterp', EL, ('    if (interpolate) {\n        p = new spline(sys->numVars());\n        dq0 = new', '    dqh = new double[sys->numVars()];\n    if (interpolate) {\n        p = new spline(sys->numVars());\n        dq0 = new'), ('        dqh = new double[sys->numVars()];\n    }\n}', '    }\n}')),
 c('spline-d', SP, ('        delete[] d;\n', '')),
 c('spline-copy', SP, ('    spline(spline const &) = delete;\n    spline &operator=(spline const &) = delete;\n', '')),
 c('spline-copyasg', SP, ('    spline &operator=(spline const &) = delete;\n', '')),
 c('hy-no-sys', HY, ('        delete sys;\n', '')),
 c('hy-no-solver', HY, ('        delete solver;\n', '')),
 c('hy-no-finder', HY, ('        delete event_finder;\n', '')),
 c('hy-event', HY, ('        delete[] event;\n', '')),
 c('hy-bool-scalar', HY, ('        delete[] event;\n', '        delete event;\n')),
 c('hy-sys-guarded', HY, ('        delete sys;\n', '        if (event_happened) {\n            delete sys;\n        }\n')),
 c('hy-used', HY, ('        delete sys;\n', '        delete sys;\n        sys->postStep(q);\n')),
 c('hy-copy', HY, ('    Hybrid(Hybrid const &) = delete;\n', '')),
 c('hy-vdtor-solver', HY, ('    virtual ~ode_solver()', '    ~ode_solver()')),
 c('hy-vdtor-sys', HY, ('    virtual ~ode_system()', '    ~ode_system()')),
 c('hy-vdtor-loc', HY, ('    virtual ~event_locator()', '    ~event_locator()')),
 c('rk-deletes-sys-guard', RK, ('    delete[] t;\n', '    delete[] t;\n    if (h_cur < 0.0) {\n        delete this->sys;\n    }\n')),
 c('trap-scale', TR, ('    N_VDestroy(scale);\n', '')),
 c('trap-y-twice', TR, ('    N_VDestroy(scale);\n', '    N_VDestroy(y);\n')),
 c('trap-kin', TR, ('    KINFree(&kmem);\n', '')),
 c('trap-ls', TR, ('    SUNLinSolFree(LS);\n', '')),
 c('trap-j', TR, ('    SUNMatDestroy(J);\n', '')),
 c('trap-ctx', TR, ('    SUNContext_Free(&sunctx);\n', '')),
 c('trap-ctx-first', TR, ('    SUNContext_Free(&sunctx);\n', ''), ('    N_VDestroy(y);\n', '    SUNContext_Free(&sunctx);\n    N_VDestroy(y);\n')),
 c('trap-k', TR, ('    delete[] k;\n', '')),
 c('trap-reprep', TR, ('    int retval = KINSol(kmem, ', '    prep_kinsol(true);\n    int retval = KINSol(kmem, ')),
 c('trap-silent-leak', TR, ('    if (silent) {\n#if', '    if (silent) {\n        scale = N_VClone(y);\n#if')),
 c('cv-noguard', CV, ('    if (y_checkpoint == nullptr) {\n        y_checkpoint = N_VClone', '    {\n        y_checkpoint = N_VClone')),
 c('cv-nodestroy', CV, ('        N_VDestroy(y_checkpoint);\n', '')),
 c('cv-wrong-guard', CV, ('    if (y_checkpoint != nullptr) {\n        N_VDestroy', '    if (has_event) {\n        N_VDestroy')),
 c('cv-destroy-state', CV, ('        N_VDestroy(y_checkpoint);\n', '        N_VDestroy(this->cvode_get_state());\n')),
 c('fmu-varlist', FM, ('    fmi2_import_free_variable_list(variable_list);\n', '')),
 c('fmu-instance', FM, ('    fmi2_import_free_instance(fmu);\n', '')),
 c('fmu-dll-first', FM, ('    fmi2_import_free_instance(fmu);\n    fmi2_import_destroy_dllfmu(fmu);\n', '    fmi2_import_destroy_dllfmu(fmu);\n    fmi2_import_free_instance(fmu);\n')),
 c('fmu-free', FM, ('    fmi2_import_free(fmu);\n', '')),
 c('fmu-free-first', FM, ('    fmi2_import_destroy_dllfmu(fmu);\n    fmi2_import_free(fmu);\n', '    fmi2_import_free(fmu);\n    fmi2_import_destroy_dllfmu(fmu);\n')),
 c('fmu-jacv', FM, ('        delete[] jac_v;\n', '')),
 c('fmu-jac-uninit', FM, ('      jac_col(nullptr),\n', '')),
 c('fmu-context', FM, ('    fmi_import_free_context(context);\n', '')),
 c('fmu-tmp', FM, ('    free(tmpPath);\n', '')),
 c('fmu-tmp-before', FM, ('    fmi_import_rmdir(nullptr, tmpPath);\n    free(tmpPath);\n', '    free(tmpPath);\n    fmi_import_rmdir(nullptr, tmpPath);\n')),
 c('fmu-jac-always', FM, ('        jac_v = new double[this->numVars() - 1];\n', ''), ('    /// Prep for jacobian calculations\n', '    jac_v = new double[this->numVars() - 1];\n')),
 c('sched-leak', SC, ('    delete[] heap;\n    heap = rheap;', '    heap = rheap;')),
 c('sched-nodtor', SC, ('~Schedule() { delete[] heap; }', '~Schedule() {}')),
 c('sched-scalar', SC, ('~Schedule() { delete[] heap; }', '~Schedule() { delete heap; }')),
 c('sched-wrong', SC, ('    delete[] heap;\n    heap = rheap;', '    heap = rheap;\n    delete[] heap;')),
 c('sched-early', SC, ('    heap_element* rheap = new heap_element[capacity * 2];\n', '    heap_element* rheap = new heap_element[capacity * 2];\n    delete[] heap;\n'), ('    capacity *= 2;\n    delete[] heap;\n', '    capacity *= 2;\n')),
 c('sched-copy', SC, ('    Schedule(Schedule const &) = delete;\n', '')),
 c('sched-dtor-half', SC, ('~Schedule() { delete[] heap; }', '~Schedule() {\n        if (size > 0) {\n            delete[] heap;\n        }\n    }')),
]
