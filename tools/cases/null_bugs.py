I = 'include/adevs/'
S = I + 'solvers/'
RULES = ['R03']
MD, EL, CV, FM, RK = I + 'models.h', S + 'event_locators.h', S + 'cvode.h', S + 'fmi.h', S + 'rk_45.h'
G1 = '    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g != nullptr) {\n        g->connect(pin, model);\n    }\n'
def c(i, f, *eds):
    return (i, {f: list(eds)})
CASES = [
 c('co-connect', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    g->connect(pin, model);\n')),
 c('co-inverted', MD, (G1, G1.replace('!=', '=='))),
 c('co-guard-other', MD, (G1, G1.replace('g != nullptr', 'model != nullptr'))),
 c('co-count', MD, (G1, G1.replace('g != nullptr', '!pin_to_atomic.empty()'))),
 c('co-remove-loop', MD, ('        if (g != nullptr) {\n            g->disconnect(iter->first, model);\n        }\n', '        g->disconnect(iter->first, model);\n')),
 c('co-remove-sub', MD, ('    coupled_components.erase(model);\n    if (g != nullptr) {\n        model->remove_from_graph();\n    }\n', '    coupled_components.erase(model);\n    model->remove_from_graph();\n')),
 c('co-helper', MD, (G1, '    pin_to_atomic.insert(std::make_pair(pin, model));\n    g_->connect(pin, model);\n'.replace('g_', 'graph()')), ('    void remove_from_graph();\n', '    void remove_from_graph();\n    Graph<ValueType, TimeType>* graph() { return g; }\n')),
 c('loc-init', EL, ('    if (p != NULL) {\n        this->sys->der_func(qstart, dq0);', '    {\n        this->sys->der_func(qstart, dq0);')),
 c('loc-swap', EL, ('    if (p != NULL) {\n        p->interpolate(qend, hg);\n    } else {', '    if (p == NULL) {\n        p->interpolate(qend, hg);\n    } else {')),
 c('fmi-jac', FM, ('if (J == nullptr || jac_col == nullptr)', 'if (jac_col == nullptr)')),
 c('rk-null', RK, ('    t = new double[sys->numVars()];', '    t = nullptr;')),
]
