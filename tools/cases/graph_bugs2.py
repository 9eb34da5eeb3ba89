G = 'include/adevs/graph.h'
M = 'include/adevs/models.h'
# second brainstorm: how a graph or a coupled model could go wrong
CP = '            // Increase the instance count and return.\n            (*iter).second++;\n            return;\n        }\n        iter++;\n    }\n'
CASES = [
 ('conn-inc-front', 'G01', [(G, CP + "    // Didn't find it.", CP.replace('(*iter).second++', 'pin_list.front().second++') + "    // Didn't find it.")]),
 ('conn-self-ignored', 'G01', [(G, "    // Didn't find it. Add the connection.\n", "    if (src == dst) return;\n")]),
 ('conn-reverse-exists', 'G01', [(G, "    // Didn't find it. Add the connection.\n", "    auto back = pin_to_pin.find(dst);\n    if (back != pin_to_pin.end()) for (auto &b : back->second) if (b.first == src) return;\n")]),
 ('conn-atomic-absent', 'G01', [(G, "    auto &atomic_list = pin_to_atomic[pin];\n    auto iter = atomic_list.begin();\n    while (iter != atomic_list.end()) {\n        if ((*iter).first == model) {\n            // Increase", "    if (models.find(model) == models.end()) return;\n    auto &atomic_list = pin_to_atomic[pin];\n    auto iter = atomic_list.begin();\n    while (iter != atomic_list.end()) {\n        if ((*iter).first == model) {\n            // Increase")]),
 ('conn-front-order', 'G01', [(G, 'pin_list.push_back(std::pair<pin_t, int>(dst, 1));', 'pin_list.push_back(std::pair<pin_t, int>(dst, 2));')]),
 ('disc-erase-dst-map', 'G01', [(G, 'pin_to_pin.erase(src);', 'pin_to_pin.erase(dst);')]),
 ('disc-size-one', 'G01', [(G, '            if ((*iter).second == 0) {\n                pin_list.erase(iter);', '            if ((*iter).second == 0 || pin_list.size() == 1) {\n                pin_list.erase(iter);')]),
 ('disc-erase-atomic-too', 'G01', [(G, '                    pin_to_pin.erase(src);', '                    pin_to_pin.erase(src);\n                    pin_to_atomic.erase(src);')]),
 ('disc-all-dsts', 'G01', [(G, '                pin_list.erase(iter);\n', '                pin_list.clear();\n')]),
 ('disc-keeps-zero', 'G01', [(G, '                pin_list.erase(iter);\n', '                if (pin_list.size() > 1) pin_list.erase(iter);\n')]),
 ('disc-a-erase-by-model', 'G01', [(G, '                atomic_list.erase(iter);\n', '                pin_to_atomic.erase(pin);\n                return;\n')]),
 ('disc-a-only-if-in-graph', 'G01', [(G, '            if ((*iter).second == 0) {\n                // Remove the model from the pin to atomic map.\n                atomic_list.erase(iter);', '            if ((*iter).second == 0 && models.count(model)) {\n                // Remove the model from the pin to atomic map.\n                atomic_list.erase(iter);')]),
 ('rm-early-two', 'G01', [(G, 'if ((*instance_iter).second > 0) {', 'if ((*instance_iter).second > 1) {')]),
 ('rm-strip-absent', 'G01', [(G, '        // The model is not part of the graph.\n        return;', '        // The model is not part of the graph.\n        for (auto &i : pin_to_atomic) i.second.remove_if([&](const auto &e) { return e.first == model; });\n        return;')]),
 ('rm-first-matching', 'G01', [(G, '''    atomic_instance_count.erase(instance_iter);
    for (auto i = pin_to_atomic.begin(); i != pin_to_atomic.end(); i++) {''', '''    atomic_instance_count.erase(instance_iter);
    bool found = false;
    for (auto i = pin_to_atomic.begin(); i != pin_to_atomic.end() && !found; i++) {'''), (G, 'atomic_list_iter = i->second.erase(atomic_list_iter);', 'atomic_list_iter = i->second.erase(atomic_list_iter);\n                found = true;')]),
 ('rm-pending', 'G01', [(G, '    models.erase(model);\n', '    models.erase(model);\n    pending.remove_if([&](const graph_op &o) { return o.model == model; });\n')]),
 ('add-insert-again-resets', 'G01', [(G, '        (*instance_iter).second++;\n        return;\n    } else {', '        (*instance_iter).second = 2;\n        return;\n    } else {')]),
 ('pin-keeps-incoming-erase', 'G01', [(G, '    if (pin_list.empty()) {\n        // Remove the pin from the pin_to_atomic map.\n        pin_to_pin.erase(pin);', '    if (atomic_list.empty()) {\n        // Remove the pin from the pin_to_atomic map.\n        pin_to_pin.erase(pin);')]),
 ('pin-return-when-no-atomics', 'G01', [(G, '    if (atomic_list.empty()) {\n        // Remove the pin from the pin_to_atomic map.\n        pin_to_atomic.erase(pin);\n    }', '    if (atomic_list.empty()) {\n        // Remove the pin from the pin_to_atomic map.\n        pin_to_atomic.erase(pin);\n        return;\n    }')]),
 ('pin-swap-lists', 'G01', [(G, 'auto &pin_list = pin_to_pin[pin];\n    auto pin_to_pin_iter = pin_list.begin();', 'auto &pin_list = pin_to_pin[pin];\n    auto pin_to_pin_iter = pin_list.begin();\n    if (pin_to_pin_iter != pin_list.end()) ++pin_to_pin_iter;')]),
 ('route-clear-first', 'G02', [(G, '    auto i = pin_to_atomic.find(pin);\n', '    models.clear();\n    auto i = pin_to_atomic.find(pin);\n')]),
 ('route-stop-at-model', 'G02', [(G, '    auto r = pin_to_pin.find(pin);\n', '    if (i != pin_to_atomic.end() && !i->second.empty()) return;\n    auto r = pin_to_pin.find(pin);\n')]),
 ('route-lower-bound', 'G02', [(G, 'auto r = pin_to_pin.find(pin);', 'auto r = pin_to_pin.lower_bound(pin);')]),
 ('route-skip-self', 'G02', [(G, '            route((*s).first, models);', '            if (!((*s).first == r->second.front().first && s != r->second.begin())) route((*s).first, models);\n            if (models.size() > 1024) break;')]),
 ('route-once-model', 'G02', [(G, '            models.push_back(\n', '            bool have = false;\n            for (auto &m : models) have = have || m.second == (*j).first;\n            if (have) continue;\n            models.push_back(\n')]),
 ('route-last-pin', 'G02', [(G, '            route((*s).first, models);', '            route(r->second.back().first, models);')]),
 ('q-disc-src-dst', 'G03', [(G, '    op.op = DISCONNECT_PIN_FROM_PIN;\n    op.pin[0] = src;\n    op.pin[1] = dst;', '    op.op = DISCONNECT_PIN_FROM_PIN;\n    op.pin[0] = dst;\n    op.pin[1] = src;')]),
 ('q-add-known', 'G03', [(G, '    graph_op op;\n    op.op = ADD_ATOMIC;', '    if (models.count(model)) return;\n    graph_op op;\n    op.op = ADD_ATOMIC;')]),
 ('q-remove-last', 'G03', [(G, '    op.op = REMOVE_ATOMIC;\n    op.model = model;\n    pending.push_back(op);', '    op.op = REMOVE_ATOMIC;\n    op.model = model;\n    if (pending.empty() || pending.back().op != REMOVE_ATOMIC) pending.push_back(op);')]),
 ('q-annihilate', 'G03', [(G, '    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n    pending.push_back(op);', '    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n    if (!pending.empty() && pending.back().op == CONNECT_PIN_TO_ATOMIC && pending.back().model == model) pending.pop_back();\n    else pending.push_back(op);')]),
 ('q-setprov-drop', 'G03', [(G, '{ provisional = p; }', '{ if (p && !provisional) pending.clear(); provisional = p; }')]),
 ('q-setprov-sticky', 'G03', [(G, '{ provisional = p; }', '{ provisional = p || !pending.empty(); }')]),
 ('q-disc-forgets-mode', 'G03', [(G, '    if (provisional) {\n        queue_disconnect(src, dst);', '    if (provisional && pin_to_pin.count(src)) {\n        queue_disconnect(src, dst);')]),
 # coupled models
 ('c-join-skip-same', 'G04', [(M, '    g_count = (g == graph) ? g_count + 1 : 1;\n', '    if (g == graph) {\n        g_count++;\n        return;\n    }\n    g_count = 1;\n')]),
 ('c-count-not-up', 'G04', [(M, 'g_count = (g == graph) ? g_count + 1 : 1;', 'g_count = 1;')]),
 ('c-count-not-reset', 'G04', [(M, 'g_count = (g == graph) ? g_count + 1 : 1;', 'g_count++;')]),
 ('c-count-le1', 'G04', [(M, 'if (--g_count == 0) {', 'if (--g_count <= 1) {')]),
 ('c-count-post', 'G04', [(M, 'if (--g_count == 0) {', 'if (g_count-- == 0) {')]),
 ('c-leave-sub-first-null', 'G04', [(M, '        coupled->remove_from_graph();\n    }\n    // Stop', '        coupled->remove_from_graph();\n        break;\n    }\n    // Stop')]),
 ('c-add-again-not', 'G04', [(M, '    atomic_components.insert(model);\n    if (g != nullptr) {', '    if (atomic_components.insert(model).second && g_count > 1) return;\n    if (g != nullptr) {')]),
 ('c-sub-add-once', 'G04', [(M, '        model->assign_to_graph(g);', '        if (model->g != g) model->assign_to_graph(g);')]),
 ('c-sub-rm-absent', 'G04', [(M, '    coupled_components.erase(model);\n    if (g != nullptr) {', '    coupled_components.erase(model);\n    if (g != nullptr && g_count == 1) {')]),
 ('c-rm-coupling-graph-only', 'G04', [(M, '    pin_to_atomic.erase(std::make_pair(pin, model));\n    if (g != nullptr) {\n', '    if (g == nullptr) pin_to_atomic.erase(std::make_pair(pin, model));\n    if (g != nullptr) {\n')]),
 ('c-rm-pins-src', 'G04', [(M, 'pin_to_pin.erase(std::make_pair(src, dst));', 'pin_to_pin.erase(std::make_pair(dst, src));')]),
 ('c-create-forgets', 'G04', [(M, '    pin_to_pin.insert(std::make_pair(src, dst));\n    if (g != nullptr) {\n        g->connect(src, dst);\n    }', '    if (g != nullptr) {\n        g->connect(src, dst);\n    } else\n    pin_to_pin.insert(std::make_pair(src, dst));')]),
 ('c-rm-not-from-pins-when-free', 'G04', [(M, '        if (iter->second != model) {\n            iter++;', '        if (iter->second != model || g == nullptr) {\n            iter++;')]),
 ('c-rm-remove-first', 'G04', [(M, '        iter = pin_to_atomic.erase(iter);\n    }\n    if (g != nullptr) {\n        g->remove_atomic(model);', '        iter = pin_to_atomic.erase(iter);\n    }\n    if (g != nullptr && g_count == 1) {\n        g->remove_atomic(model);')]),
 ('c-join-after', 'G04', [(M, '    g = graph;\n    for (auto atomic : atomic_components) {\n        g->add_atomic(atomic);\n    }', '    g = graph;\n    for (auto atomic : atomic_components) {\n        if (!g->get_atomics().count(atomic)) g->add_atomic(atomic);\n    }')]),
]
