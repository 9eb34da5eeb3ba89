M = 'include/adevs/models.h'
CASES = [
 ('no-forward-edge', 'G04', [(M, '    pin_to_pin.insert(std::make_pair(src, dst));\n    if (g != nullptr) {', '    if (pin_to_pin.insert(std::make_pair(src, dst)).second == false && g != nullptr) {')]),
 ('swap', 'G04', [(M, 'g->disconnect(src, dst);', 'g->disconnect(dst, src);')]),
 ('not-remembered-in-sim', 'G04', [(M, '    atomic_components.insert(model);\n    if (g != nullptr) {\n        g->add_atomic(model);\n    }', '    if (g != nullptr) {\n        g->add_atomic(model);\n        return;\n    }\n    atomic_components.insert(model);')]),
 ('leave-keeps-pins', 'G04', [(M, '    for (auto coupling : pin_to_pin) {\n        g->disconnect(coupling.first, coupling.second);\n    }\n', '')]),
 ('leave-connect', 'G04', [(M, '    for (auto coupling : pin_to_pin) {\n        g->disconnect(', '    for (auto coupling : pin_to_pin) {\n        g->connect(')]),
 ('join-sub-only-first', 'G04', [(M, '        coupled->assign_to_graph(g);\n', '        coupled->assign_to_graph(g);\n        if (pin_to_pin.empty()) break;\n')]),
 ('rm-keep-coupling', 'G04', [(M, '        iter = pin_to_atomic.erase(iter);\n', '        iter++;\n')]),
 ('rm-inverted', 'G04', [(M, 'if (iter->second != model) {', 'if (iter->second == model) {')]),
 ('rm-nodisc', 'G04', [(M, '            g->disconnect(iter->first, model);', '            if (atomic_components.size() > 1) g->disconnect(iter->first, model);')]),
 ('rmsub-keeps', 'G04', [(M, '    coupled_components.erase(model);\n    if (g', '    if (g')]),
 ('rmsub-apart', 'G04', [(M, '    coupled_components.erase(model);\n    if (g != nullptr) {', '    coupled_components.erase(model);\n    if (!coupled_components.empty()) {')]),
 ('early-null', 'G04', [(M, '    for (auto coupled : coupled_components) {\n        coupled->remove_from_graph();\n    }\n    // Stop changing the graph when the last instance has left it\n    if (--g_count == 0) {\n        g = nullptr;\n    }', '    for (auto coupled : coupled_components) {\n        coupled->remove_from_graph();\n    }\n    if (--g_count <= 1) {\n        g = nullptr;\n    }')]),
 ('join-wrong-pair', 'G04', [(M, '    for (auto coupling : pin_to_pin) {\n        g->connect(coupling.first, coupling.second);', '    for (auto coupling : pin_to_pin) {\n        g->connect(coupling.second, coupling.first);')]),
]
