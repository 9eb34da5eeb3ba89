M = 'include/adevs/models.h'
RULES = ['G04', 'S02']
CASES = [
 ('early-return', '', [(M, '    atomic_components.insert(model);\n    if (g != nullptr) {\n        g->add_atomic(model);\n    }', '    atomic_components.insert(model);\n    if (!g) return;\n    g->add_atomic(model);')]),
 ('forward-first', '', [(M, '    pin_to_pin.erase(std::make_pair(src, dst));\n    if (g != nullptr) {\n        g->disconnect(src, dst);\n    }', '    const std::pair<pin_t, pin_t> edge(src, dst);\n    if (g) {\n        g->disconnect(edge.first, edge.second);\n    }\n    pin_to_pin.erase(edge);')]),
 ('brace', '', [(M, 'pin_to_atomic.insert(std::make_pair(pin, model));', 'pin_to_atomic.insert({pin, model});')]),
 ('emplace', '', [(M, 'pin_to_atomic.insert(std::make_pair(pin, model));', 'pin_to_atomic.emplace(pin, model);')]),
 ('find-erase', '', [(M, '    coupled_components.erase(model);\n    if', '    auto found = coupled_components.find(model);\n    if (found != coupled_components.end()) {\n        coupled_components.erase(found);\n    }\n    if')]),
 ('two-pass', '', [(M, '''    for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
        if (iter->second != model) {
            iter++;
            continue;
        }
        if (g != nullptr) {
            g->disconnect(iter->first, model);
        }
        iter = pin_to_atomic.erase(iter);
    }
''', '''    auto iter = pin_to_atomic.begin();
    while (iter != pin_to_atomic.end()) {
        const bool mine = (iter->second == model);
        if (mine && g != nullptr) {
            g->disconnect(iter->first, iter->second);
        }
        if (mine) {
            iter = pin_to_atomic.erase(iter);
        } else {
            ++iter;
        }
    }
''')]),
 ('structured', '', [(M, '    for (auto coupling : pin_to_pin) {\n        g->connect(coupling.first, coupling.second);', '    for (auto const &[from, to] : pin_to_pin) {\n        graph->connect(from, to);')]),
 ('order', '', [(M, '    for (auto atomic : atomic_components) {\n        g->remove_atomic(atomic);\n    }\n', ''), (M, '    // Stop changing the graph', '    for (auto const &atomic : atomic_components) {\n        g->remove_atomic(atomic);\n    }\n    // Stop changing the graph')]),
 ('count', '', [(M, '    g_count = (g == graph) ? g_count + 1 : 1;\n    g = graph;', '    if (g != graph) {\n        g = graph;\n        g_count = 0;\n    }\n    g_count++;')]),
 ('count2', '', [(M, '    if (--g_count == 0) {\n        g = nullptr;\n    }', '    g_count -= 1;\n    if (g_count > 0) {\n        return;\n    }\n    g = nullptr;')]),
 ('helper', '', [(M, '    for (auto atomic : atomic_components) {\n        g->add_atomic(atomic);\n    }\n', '    join_atomics();\n'), (M, '    void remove_from_graph();', '    void join_atomics() {\n        for (auto it = atomic_components.begin(); it != atomic_components.end(); ++it) {\n            g->add_atomic(*it);\n        }\n    }\n    void remove_from_graph();')]),
 ('local-g', '', [(M, '    for (auto atomic : atomic_components) {\n        g->remove_atomic(atomic);\n    }\n', '    Graph<ValueType, TimeType>* const target = g;\n    for (auto atomic : atomic_components) {\n        target->remove_atomic(atomic);\n    }\n')]),
 ('collect', '', [(M, '''    for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
        if (iter->second != model) {
            iter++;
            continue;
        }
        if (g != nullptr) {
            g->disconnect(iter->first, model);
        }
        iter = pin_to_atomic.erase(iter);
    }
''', '''    std::list<pin_t> pins;
    for (auto const &c : pin_to_atomic) {
        if (c.second == model) pins.push_back(c.first);
    }
    for (auto const &pin : pins) {
        remove_coupling(pin, model);
    }
''')]),
]
