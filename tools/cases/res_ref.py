I = 'include/adevs/'
S = I + 'solvers/'
RULES = ['R01']
RK, CE, TR, EL, HY, SP, CV, FM, SC = S + 'rk_45.h', S + 'corrected_euler.h', S + 'trap.h', S + 'event_locators.h', S + 'hybrid.h', S + 'spline.h', S + 'cvode.h', S + 'fmi.h', I + 'sched.h'
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 c('rk-order', RK, ('    delete[] dq;\n    delete[] qq;\n', '    delete[] qq;\n    delete[] dq;\n')),
 c('rk-down', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];', '    for (int i = 5; i >= 0; i--) {\n        delete[] k[i];')),
 c('rk-while', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];\n    }', '    int i = 0;\n    while (i < 6) {\n        delete[] k[i];\n        i++;\n    }')),
 c('rk-unrolled', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];\n    }', '    delete[] k[0];\n    delete[] k[1];\n    delete[] k[2];\n    delete[] k[3];\n    delete[] k[4];\n    delete[] k[5];\n')),
 c('rk-range', RK, ('    for (int i = 0; i < 6; i++) {\n        delete[] k[i];\n    }', '    for (double* s : k) {\n        delete[] s;\n    }')),
 c('rk-null', RK, ('    delete[] t;\n', '    if (t != nullptr) {\n        delete[] t;\n    }\n    t = nullptr;\n')),
 c('rk-inits', RK, ('err_tol(err_tol), h_max(h_max), h_cur(h_max) {', 'err_tol(err_tol), h_max(h_max), h_cur(h_max) {\n    int const n = sys->numVars();'), ('    dq = new double[sys->numVars()];\n    qq = new double[sys->numVars()];\n', '    dq = new double[n];\n    qq = new double[n];\n')),
 c('rk-helper', RK, ('    delete[] dq;\n    delete[] qq;\n    delete[] t;\n', '    release();\n'), ('    double trial_step(double h);\n', '    double trial_step(double h);\n    void release() {\n        delete[] dq;\n        delete[] qq;\n        delete[] t;\n    }\n')),
 c('rk-vector', RK, ('    double* dq', '    std::vector<double> store;\n    double* dq') if False else ('    t = new double[sys->numVars()];', '    t = new double[static_cast<size_t>(sys->numVars())];')),
 c('ce-local', CE, ('    t = new double[sys->numVars()];', '    double* const stage_time = new double[sys->numVars()];\n    t = stage_time;')),
 c('loc-loop', EL, ('    z[0] = new double[sys->numEvents()];\n    z[1] = new double[sys->numEvents()];\n', '    for (int i = 0; i < 2; i++) {\n        z[i] = new double[sys->numEvents()];\n    }\n')),
 c('loc-loop-dtor', EL, ('    delete[] z[0];\n    delete[] z[1];\n', '    for (int i = 0; i < 2; i++) {\n        delete[] z[i];\n    }\n')),
 c('loc-range-dtor', EL, ('    delete[] z[0];\n    delete[] z[1];\n', '    for (auto s : z) {\n        delete[] s;\n    }\n')),
 c('fast-noguard', EL, ('    if (p != NULL) {\n        delete[] dq0;\n        delete[] dqh;\n        delete p;\n    }\n', '    delete[] dq0;\n    delete[] dqh;\n    delete p;\n')),
 c('fast-guard-dq', EL, ('    if (p != NULL) {\n        delete[] dq0;', '    if (dq0 != NULL) {\n        delete[] dq0;')),
 c('fast-early', EL, ('    if (p != NULL) {\n        delete[] dq0;\n        delete[] dqh;\n        delete p;\n    }\n', '    if (p == NULL) {\n        return;\n    }\n    delete[] dq0;\n    delete[] dqh;\n    delete p;\n')),
 c('hy-order', HY, ('        delete event_finder;\n        delete solver;\n', '        delete solver;\n        delete event_finder;\n')),
 c('hy-inits', HY, ('        : sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {\n        q = new double[sys->numVars()];\n', '        : sys(sys), solver(solver), event_finder(event_finder), q(new double[sys->numVars()]), e_accum(0.0) {\n')),
 c('trap-order', TR, ('    KINFree(&kmem);\n    SUNLinSolFree(LS);\n    SUNMatDestroy(J);\n', '    SUNMatDestroy(J);\n    SUNLinSolFree(LS);\n    KINFree(&kmem);\n')),
 c('trap-helper', TR, ('    N_VDestroy(y);\n    N_VDestroy(scale);\n    KINFree(&kmem);\n    SUNLinSolFree(LS);\n    SUNMatDestroy(J);\n    SUNContext_Free(&sunctx);\n', '    release_kinsol();\n'), ('    void prep_kinsol(bool silent);\n', '    void prep_kinsol(bool silent);\n    void release_kinsol() {\n        N_VDestroy(y);\n        N_VDestroy(scale);\n        KINFree(&kmem);\n        SUNLinSolFree(LS);\n        SUNMatDestroy(J);\n        SUNContext_Free(&sunctx);\n    }\n')),
 c('cv-guard', CV, ('    if (y_checkpoint != nullptr) {\n        N_VDestroy(y_checkpoint);\n    }\n', '    if (y_checkpoint == nullptr) {\n        return;\n    }\n    N_VDestroy(y_checkpoint);\n')),
 c('cv-local', CV, ('        y_checkpoint = N_VClone(this->cvode_get_state());\n', '        N_Vector const copy = N_VClone(this->cvode_get_state());\n        y_checkpoint = copy;\n')),
 c('cv-helper', CV, ('        y_checkpoint = N_VClone(this->cvode_get_state());\n', '        make_checkpoint();\n'), ('  private:\n    N_Vector y_checkpoint;', '  private:\n    void make_checkpoint() { y_checkpoint = N_VClone(this->cvode_get_state()); }\n    N_Vector y_checkpoint;')),
 c('fmu-noguard', FM, ('    if (jac_col != nullptr) {\n        delete[] jac_col;\n        delete[] jac_v;\n    }\n', '    delete[] jac_col;\n    delete[] jac_v;\n')),
 c('fmu-jac-first', FM, ('    fmi2_import_terminate(fmu);\n    fmi2_import_free_instance(fmu);', '    delete[] jac_v;\n    jac_v = nullptr;\n    fmi2_import_terminate(fmu);\n    fmi2_import_free_instance(fmu);')),
 c('fmu-tmp-late', FM, ('    fmi_import_rmdir(nullptr, tmpPath);\n    free(tmpPath);\n', ''), ('    /// Setup the FMU for simulation\n', '    fmi_import_rmdir(nullptr, tmpPath);\n    free(tmpPath);\n    /// Setup the FMU for simulation\n')),
 c('sched-swap', SC, ('    delete[] heap;\n    heap = rheap;', '    std::swap(heap, rheap);\n    delete[] rheap;')),
 c('sched-old', SC, ('    capacity *= 2;\n    delete[] heap;\n    heap = rheap;', '    capacity *= 2;\n    heap_element* const old = heap;\n    heap = rheap;\n    delete[] old;')),
 c('sched-size', SC, ('    heap_element* rheap = new heap_element[capacity * 2];', '    unsigned int const more = capacity * 2;\n    heap_element* rheap = new heap_element[more];')),
 c('sched-body', SC, ('    Schedule(unsigned int capacity = 100)\n        : capacity(capacity < 2 ? 2 : capacity), size(0), heap(new heap_element[this->capacity]) {', '    Schedule(unsigned int capacity = 100) : capacity(capacity < 2 ? 2 : capacity), size(0), heap(nullptr) {\n        heap = new heap_element[this->capacity];')),
 c('sched-vector', SC, ('    heap_element* heap;', '    std::vector<heap_element> heap;'), ('heap(new heap_element[this->capacity])', 'heap(this->capacity)'), ('~Schedule() { delete[] heap; }', '~Schedule() {}'), ('    heap_element* rheap = new heap_element[capacity * 2];\n    for (unsigned int i = 0; i < capacity; i++) {\n        rheap[i] = heap[i];\n    }\n    capacity *= 2;\n    delete[] heap;\n    heap = rheap;', '    capacity *= 2;\n    heap.resize(capacity);'), ('#include <list>', '#include <list>\n#include <vector>')),
 c('sched-unique', SC, ('    heap_element* heap;', '    std::unique_ptr<heap_element[]> heap;'), ('~Schedule() { delete[] heap; }', '~Schedule() {}'), ('    delete[] heap;\n    heap = rheap;', '    heap.reset(rheap);'), ('#include <list>', '#include <list>\n#include <memory>')),
 c('fast-unique', EL, ('    double *z0, *zf', '    double *z0, *zf') if False else ('    delete[] z0;\n    delete[] zf;\n', '    delete[] zf;\n    delete[] z0;\n')),
]
