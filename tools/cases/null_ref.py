I = 'include/adevs/'
S = I + 'solvers/'
RULES = ['R03']
MD, EL, CV, FM, RK = I + 'models.h', S + 'event_locators.h', S + 'cvode.h', S + 'fmi.h', S + 'rk_45.h'
G1 = '    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g != nullptr) {\n        g->connect(pin, model);\n    }\n'
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 c('co-early', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g == nullptr) {\n        return;\n    }\n    g->connect(pin, model);\n')),
 c('co-local', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    auto* const graph = g;\n    if (graph) {\n        graph->connect(pin, model);\n    }\n')),
 c('co-helper', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (joined()) {\n        g->connect(pin, model);\n    }\n'), ('    void remove_from_graph();\n', '    void remove_from_graph();\n    bool joined() const { return g != nullptr; }\n')),
 c('co-do', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    join(pin, model);\n'), ('    void remove_from_graph();\n', '    void remove_from_graph();\n    void join(pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> m) {\n        if (g) {\n            g->connect(pin, m);\n        }\n    }\n')),
 c('co-do2', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g) {\n        join(pin, model);\n    }\n'), ('    void remove_from_graph();\n', '    void remove_from_graph();\n    void join(pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> m) { g->connect(pin, m); }\n')),
 c('co-flag', MD, (G1, '    bool const in = (g != nullptr);\n    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (in) {\n        g->connect(pin, model);\n    }\n')),
 c('co-continue', MD, ('        if (g != nullptr) {\n            g->disconnect(iter->first, model);\n        }\n        iter = pin_to_atomic.erase(iter);\n', '        if (g == nullptr) {\n            iter = pin_to_atomic.erase(iter);\n            continue;\n        }\n        g->disconnect(iter->first, model);\n        iter = pin_to_atomic.erase(iter);\n')),
 c('loc-not', EL, ('    if (p != NULL) {\n        p->interpolate(qend, hg);\n    } else {\n        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n        solver->advance(qend, hg);\n    }', '    if (p == nullptr) {\n        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n        solver->advance(qend, hg);\n    } else {\n        p->interpolate(qend, hg);\n    }')),
 c('loc-dq', EL, ('    if (p != NULL) {\n        this->sys->der_func(qstart, dq0);', '    if (dq0 != NULL) {\n        this->sys->der_func(qstart, dq0);')),
 c('loc-flag', EL, ('    if (p != NULL) {\n        this->sys->der_func(qstart, dq0);', '    bool const spline_used = p != nullptr;\n    if (spline_used) {\n        this->sys->der_func(qstart, dq0);'), ('    if (p != NULL) {\n        p->interpolate(qend, hg);', '    if (spline_used) {\n        p->interpolate(qend, hg);')),
 c('rk-release', RK, ('    delete[] t;\n', '    release();\n'), ('    double trial_step(double h);\n', '    double trial_step(double h);\n    void release() {\n        delete[] t;\n        t = nullptr;\n    }\n')),
 c('rk-default', RK, ('    double *t;', '    double *t{nullptr};') if False else ('    t = new double[sys->numVars()];', '    t = nullptr;\n    t = new double[sys->numVars()];')),
 c('fmi-two', FM, ('    if (J == nullptr || jac_col == nullptr) {\n        return jac_col != nullptr;\n    }\n', '    if (jac_col == nullptr) {\n        return false;\n    }\n    if (J == nullptr) {\n        return true;\n    }\n')),
]
