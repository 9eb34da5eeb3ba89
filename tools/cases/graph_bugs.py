G = 'include/adevs/graph.h'
CASES = [
 ('cnt-first-zero', 'G01', [(G, 'atomic_instance_count[model.get()] = 1;', 'atomic_instance_count[model.get()] = 0;')]),
 ('no-insert', 'G01', [(G, '    models.insert(model);\n', '    if (!atomic_instance_count.empty() && atomic_instance_count.size() > 1) models.insert(model);\n')]),
 ('again-two', 'G01', [(G, '(*instance_iter).second++;\n        return;', '(*instance_iter).second += 1;\n    }\n    if (instance_iter != atomic_instance_count.end()) {\n        (*instance_iter).second++;\n        return;')]),
 ('rm-ge', 'G01', [(G, 'if ((*instance_iter).second > 0) {\n        // If there are', 'if ((*instance_iter).second >= 0) {\n        // If there are')]),
 ('rm-break', 'G01', [(G, 'atomic_list_iter = i->second.erase(atomic_list_iter);', 'atomic_list_iter = i->second.erase(atomic_list_iter);\n                break;')]),
 ('rm-break-if-count', 'G01', [(G, 'atomic_list_iter = i->second.erase(atomic_list_iter);', 'if (atomic_list_iter->second > 1) { atomic_list_iter->second--; atomic_list_iter++; continue; }\n                atomic_list_iter = i->second.erase(atomic_list_iter);')]),
 ('rm-no-models', 'G01', [(G, '    models.erase(model);\n', '')]),
 ('rm-no-count', 'G01', [(G, '    atomic_instance_count.erase(instance_iter);\n', '')]),
 ('rm-firstpin', 'G01', [(G, '''                atomic_list_iter++;
            }
        }
    }
    models.erase(model);''', '''                atomic_list_iter++;
            }
        }
        if (i->second.empty()) break;
    }
    models.erase(model);''')]),
 ('conn-always-push', 'G01', [(G, '''            // Increase the instance count and return.
            (*iter).second++;
            return;
        }
        iter++;
    }
    // Didn't find it.''', '''            // Increase the instance count and return.
            (*iter).second++;
            break;
        }
        iter++;
    }
    // Didn't find it.''')]),
 ('conn-match-src', 'G01', [(G, 'if ((*iter).first == dst) {\n            // Increase', 'if ((*iter).first == src) {\n            // Increase')]),
 ('conn-only-first', 'G01', [(G, '''        iter++;
    }
    // Didn't find it.''', '''        break;
    }
    // Didn't find it.''')]),
 ('disc-lt2', 'G01', [(G, '''            (*iter).second--;
            // Remove it if it is the last instance
            if ((*iter).second == 0) {
                pin_list.erase(iter);''', '''            // Remove it if it is the last instance
            if ((*iter).second-- == 0) {
                pin_list.erase(iter);''')]),
 ('disc-map-erase', 'G01', [(G, '''                pin_list.erase(iter);
                if (pin_list.empty()) {
                    // If the pin_to_pin map is empty, remove the pin.
                    pin_to_pin.erase(src);
                }''', '''                pin_list.erase(iter);
                pin_to_pin.erase(src);''')]),
 ('disc-dst-erase', 'G01', [(G, '''                    // If the pin_to_pin map is empty, remove the pin.
                    pin_to_pin.erase(src);''', '''                    pin_to_pin.erase(src);
                    pin_to_atomic.erase(src);''')]),
 ('disc-model-other', 'G01', [(G, '''    auto &atomic_list = pin_to_atomic[pin];
    auto iter = atomic_list.begin();
    while (iter != atomic_list.end()) {
        if ((*iter).first == model) {
            // Decrease''', '''    auto &atomic_list = pin_to_atomic[pin];
    auto iter = atomic_list.begin();
    while (iter != atomic_list.end()) {
        if ((*iter).second > 0) {
            // Decrease''')]),
 ('pin-only-atomic', 'G01', [(G, '''    // Remove pins from the pin to pin map
    auto &pin_list''', '''    // Remove pins from the pin to pin map
    if (atomic_list.empty()) return;
    auto &pin_list''')]),
 ('pin-skip', 'G01', [(G, 'pin_to_pin_iter = pin_list.erase(pin_to_pin_iter);', 'pin_to_pin_iter = pin_list.erase(pin_to_pin_iter);\n            if (pin_to_pin_iter == pin_list.end()) break;\n            pin_to_pin_iter++;')]),
 ('pin-erase-all', 'G01', [(G, '''    if (pin_list.empty()) {
        // Remove the pin from the pin_to_atomic map.
        pin_to_pin.erase(pin);
    }''', '''    pin_to_pin.erase(pin);''')]),

 ('route-start-pin', 'G02', [(G, 'route((*s).first, models);', 'route(pin == (*s).first ? pin : (*s).first, models);\n            if (models.size() > 64) break;')]),
 ('route-origin', 'G02', [(G, '(pin, (*j).first));', '(models.empty() ? pin : models.front().first, (*j).first));')]),
 ('route-else', 'G02', [(G, '    auto r = pin_to_pin.find(pin);\n    if (r !=', '    auto r = pin_to_pin.find(pin);\n    if (i == pin_to_atomic.end() && r !=')]),
 ('route-dedupe', 'G02', [(G, '            models.push_back(\n', '            if (!models.empty() && models.back().second == (*j).first) continue;\n            models.push_back(\n')]),
 ('route-count', 'G02', [(G, '            route((*s).first, models);', '            for (int c = 0; c < (*s).second; c++) route((*s).first, models);')]),
 ('route-clear', 'G02', [(G, '    auto i = pin_to_atomic.find(pin);', '    models.clear();\n    auto i = pin_to_atomic.find(pin);')]),
 ('q-swap', 'G03', [(G, '    op.op = DISCONNECT_PIN_FROM_PIN;\n    op.pin[0] = src;\n    op.pin[1] = dst;', '    op.op = DISCONNECT_PIN_FROM_PIN;\n    op.pin[0] = dst;\n    op.pin[1] = src;')]),
 ('q-front', 'G03', [(G, '    op.op = REMOVE_PIN;\n    op.pin[0] = pin;\n    pending.push_back(op);', '    op.op = REMOVE_PIN;\n    op.pin[0] = pin;\n    pending.push_front(op);')]),
 ('q-dup', 'G03', [(G, '    op.op = CONNECT_PIN_TO_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n', '    op.op = CONNECT_PIN_TO_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n    if (!pending.empty() && pending.back().op == op.op && pending.back().model == model) return;\n')]),
 ('q-kind', 'G03', [(G, '    op.op = REMOVE_ATOMIC;', '    op.op = ADD_ATOMIC;')]),
 ('q-nomodel', 'G03', [(G, '    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n', '    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n')]),
 ('q-mode', 'G03', [(G, '    if (provisional) {\n        queue_remove_atomic(model);\n        return;\n    }\n    auto', '    if (provisional) {\n        queue_remove_atomic(model);\n        if (atomic_instance_count.count(model.get()) == 0) return;\n        models.erase(model);\n        return;\n    }\n    auto')]),
 ('q-absent', 'G03', [(G, '    if (provisional) {\n        queue_remove_atomic(model);', '    if (provisional && models.find(model) != models.end()) {\n        queue_remove_atomic(model);')]),
 ('q-cancel', 'G03', [(G, '    op.op = REMOVE_ATOMIC;\n    op.model = model;\n    pending.push_back(op);', '''    for (auto it = pending.begin(); it != pending.end(); ++it) {
        if (it->op == ADD_ATOMIC && it->model == model) {
            pending.erase(it);
            return;
        }
    }
    op.op = REMOVE_ATOMIC;
    op.model = model;
    pending.push_back(op);''')]),
 ('q-setprov', 'G03', [(G, 'void set_provisional(bool p) { provisional = p; }', 'void set_provisional(bool p) { provisional = p; if (!p) pending.clear(); }')]),
]
