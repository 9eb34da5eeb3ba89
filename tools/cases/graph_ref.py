G = 'include/adevs/graph.h'
RULES = ['G01', 'G02', 'G03']
CASES = [
 ('rangefor-connect', '', [(G, '''    auto iter = pin_list.begin();
    while (iter != pin_list.end()) {
        if ((*iter).first == dst) {
            // Increase the instance count and return.
            (*iter).second++;
            return;
        }
        iter++;
    }
''', '''    for (auto &entry : pin_list) {
        if (entry.first == dst) {
            ++entry.second;
            return;
        }
    }
''')]),
 ('findif-connect', '', [(G, '''    auto iter = pin_list.begin();
    while (iter != pin_list.end()) {
        if ((*iter).first == dst) {
            // Increase the instance count and return.
            (*iter).second++;
            return;
        }
        iter++;
    }
    // Didn't find it. Add the connection.
    pin_list.push_back(std::pair<pin_t, int>(dst, 1));
''', '''    auto iter = std::find_if(pin_list.begin(), pin_list.end(), [&](const std::pair<pin_t, int> &e) { return e.first == dst; });
    if (iter == pin_list.end()) {
        pin_list.emplace_back(dst, 1);
    } else {
        iter->second += 1;
    }
'''), (G, '#include <map>', '#include <map>\n#include <algorithm>')]),
 ('find-first-disc', '', [(G, '''    auto &pin_list = pin_to_pin[src];
    auto iter = pin_list.begin();
    while (iter != pin_list.end()) {
        if ((*iter).first == dst) {
            // Decrease the instance count
            (*iter).second--;
            // Remove it if it is the last instance
            if ((*iter).second == 0) {
                pin_list.erase(iter);
                if (pin_list.empty()) {
                    // If the pin_to_pin map is empty, remove the pin.
                    pin_to_pin.erase(src);
                }
            }
            // Done so return
            return;
        }
        iter++;
    }
''', '''    auto found = pin_to_pin.find(src);
    if (found == pin_to_pin.end()) {
        return;
    }
    auto &pin_list = found->second;
    for (auto iter = pin_list.begin(); iter != pin_list.end(); ++iter) {
        if (iter->first != dst) {
            continue;
        }
        if (--iter->second == 0) {
            pin_list.erase(iter);
        }
        if (pin_list.empty()) {
            pin_to_pin.erase(found);
        }
        break;
    }
''')]),
 ('disc-gt1', '', [(G, '''            // Decrease the instance count
            (*iter).second--;
            // Remove it if it is the last instance
            if ((*iter).second == 0) {
                pin_list.erase(iter);
                if (pin_list.empty()) {
                    // If the pin_to_pin map is empty, remove the pin.
                    pin_to_pin.erase(src);
                }
            }
''', '''            if (iter->second > 1) {
                iter->second = iter->second - 1;
                return;
            }
            pin_list.erase(iter);
            if (pin_list.size() == 0) pin_to_pin.erase(src);
''')]),
 ('add-early', '', [(G, '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter != atomic_instance_count.end()) {
        // Increase the instance count and return.
        (*instance_iter).second++;
        return;
    } else {
        atomic_instance_count[model.get()] = 1;
    }
    // Add the model to the set of components map.
    models.insert(model);
''', '''    if (++atomic_instance_count[model.get()] == 1) {
        models.insert(model);
    }
''')]),
 ('add-emplace', '', [(G, '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter != atomic_instance_count.end()) {
        // Increase the instance count and return.
        (*instance_iter).second++;
        return;
    } else {
        atomic_instance_count[model.get()] = 1;
    }
    // Add the model to the set of components map.
    models.insert(model);
''', '''    auto r = atomic_instance_count.emplace(model.get(), 1);
    if (!r.second) {
        r.first->second++;
        return;
    }
    models.insert(model);
''')]),
 ('add-count', '', [(G, '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter != atomic_instance_count.end()) {
        // Increase the instance count and return.
        (*instance_iter).second++;
        return;
    } else {
        atomic_instance_count[model.get()] = 1;
    }
''', '''    if (atomic_instance_count.count(model.get()) > 0) {
        atomic_instance_count[model.get()]++;
        return;
    }
    atomic_instance_count.insert(std::make_pair(model.get(), 1));
''')]),
 ('rm-order', '', [(G, '''    // Decrease the instance count and return.
    (*instance_iter).second--;
    if ((*instance_iter).second > 0) {
        // If there are still instances of the model, just return.
        return;
    }
''', '''    if (instance_iter->second > 1) {
        instance_iter->second--;
        return;
    }
    models.erase(model);
'''), (G, '''            }
        }
    }
    models.erase(model);
''', '''            }
        }
    }
''')]),
 ('rm-rangefor', '', [(G, '''    for (auto i = pin_to_atomic.begin(); i != pin_to_atomic.end(); i++) {
        auto atomic_list_iter = i->second.begin();
        while (atomic_list_iter != i->second.end()) {
            if (atomic_list_iter->first == model) {
                // Remove the model from the pin to atomic map.
                atomic_list_iter = i->second.erase(atomic_list_iter);
            } else {
                atomic_list_iter++;
            }
        }
    }
''', '''    for (auto &entry : pin_to_atomic) {
        entry.second.remove_if([&](const std::pair<std::shared_ptr<Atomic<ValueType, TimeType>>, int> &c) { return c.first == model; });
    }
''')]),
 ('rm-structured', '', [(G, '''    for (auto i = pin_to_atomic.begin(); i != pin_to_atomic.end(); i++) {
        auto atomic_list_iter = i->second.begin();
        while (atomic_list_iter != i->second.end()) {
            if (atomic_list_iter->first == model) {
                // Remove the model from the pin to atomic map.
                atomic_list_iter = i->second.erase(atomic_list_iter);
            } else {
                atomic_list_iter++;
            }
        }
    }
''', '''    for (auto &[p, lst] : pin_to_atomic) {
        for (auto it = lst.begin(); it != lst.end();) {
            it = (it->first == model) ? lst.erase(it) : std::next(it);
        }
    }
''')]),
 ('rm-helper', '', [(G, '''        auto atomic_list_iter = i->second.begin();
        while (atomic_list_iter != i->second.end()) {
            if (atomic_list_iter->first == model) {
                // Remove the model from the pin to atomic map.
                atomic_list_iter = i->second.erase(atomic_list_iter);
            } else {
                atomic_list_iter++;
            }
        }
''', '''        drop(i->second, model);
'''), (G, '    void queue_remove_pin(pin_t p);', '''    static void drop(std::list<std::pair<std::shared_ptr<Atomic<ValueType, TimeType>>, int>> &l, const std::shared_ptr<Atomic<ValueType, TimeType>> &model) {
        auto it = l.begin();
        while (it != l.end()) {
            if (it->first == model) it = l.erase(it);
            else ++it;
        }
    }
    void queue_remove_pin(pin_t p);''')]),
 ('pin-for', '', [(G, '''    auto pin_to_pin_iter = pin_list.begin();
    while (pin_to_pin_iter != pin_list.end()) {
        (*pin_to_pin_iter).second--;
        if ((*pin_to_pin_iter).second == 0) {
            pin_to_pin_iter = pin_list.erase(pin_to_pin_iter);
        } else {
            pin_to_pin_iter++;
        }
    }
''', '''    for (auto it = pin_list.begin(); it != pin_list.end();) {
        if (--(it->second) > 0) {
            ++it;
            continue;
        }
        it = pin_list.erase(it);
    }
''')]),
 ('pin-tmpl', '', [(G, '''    // Remove atomic models from the pin to atomic map
    auto &atomic_list = pin_to_atomic[pin];
    auto pin_to_atomic_iter = atomic_list.begin();
    while (pin_to_atomic_iter != atomic_list.end()) {
        (*pin_to_atomic_iter).second--;
        if ((*pin_to_atomic_iter).second == 0) {
            pin_to_atomic_iter = atomic_list.erase(pin_to_atomic_iter);
        } else {
            pin_to_atomic_iter++;
        }
    }
    if (atomic_list.empty()) {
        // Remove the pin from the pin_to_atomic map.
        pin_to_atomic.erase(pin);
    }
    // Remove pins from the pin to pin map
    auto &pin_list = pin_to_pin[pin];
    auto pin_to_pin_iter = pin_list.begin();
    while (pin_to_pin_iter != pin_list.end()) {
        (*pin_to_pin_iter).second--;
        if ((*pin_to_pin_iter).second == 0) {
            pin_to_pin_iter = pin_list.erase(pin_to_pin_iter);
        } else {
            pin_to_pin_iter++;
        }
    }
    if (pin_list.empty()) {
        // Remove the pin from the pin_to_atomic map.
        pin_to_pin.erase(pin);
    }
''', '''    release(pin_to_atomic, pin);
    release(pin_to_pin, pin);
'''), (G, '    void queue_remove_pin(pin_t p);', '''    template <typename Table>
    static void release(Table &table, pin_t pin) {
        auto found = table.find(pin);
        if (found == table.end()) return;
        auto &entries = found->second;
        for (auto it = entries.begin(); it != entries.end();) {
            it->second--;
            if (it->second == 0) it = entries.erase(it);
            else ++it;
        }
        if (entries.empty()) table.erase(found);
    }
    void queue_remove_pin(pin_t p);''')]),
 ('route-rangefor', '', [(G, '''        for (auto j = i->second.begin(); j != i->second.end(); j++) {
            models.push_back(
                std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>(pin, (*j).first));
        }
''', '''        for (auto const &entry : i->second) {
            models.emplace_back(pin, entry.first);
        }
'''), (G, '''        for (auto s = r->second.begin(); s != r->second.end(); s++) {
            route((*s).first, models);
        }
''', '''        for (const auto &[next, count] : r->second) {
            (void)count;
            route(next, models);
        }
''')]),
 ('route-pins-first', '', [(G, '''    auto r = pin_to_pin.find(pin);
    if (r != pin_to_pin.end()) {
        for (auto s = r->second.begin(); s != r->second.end(); s++) {
            route((*s).first, models);
        }
    }
''', ''), (G, '    auto i = pin_to_atomic.find(pin);\n', '''    if (pin_to_pin.count(pin) != 0) {
        const auto &next = pin_to_pin.at(pin);
        for (auto s = next.begin(); s != next.end(); s++) {
            this->route(s->first, models);
        }
    }
    auto i = pin_to_atomic.find(pin);
''')]),
 ('route-early', '', [(G, '''    if (r != pin_to_pin.end()) {
        for (auto s = r->second.begin(); s != r->second.end(); s++) {
            route((*s).first, models);
        }
    }
''', '''    if (r == pin_to_pin.end()) {
        return;
    }
    auto const &successors = r->second;
    auto s = successors.cbegin();
    while (s != successors.cend()) {
        route(s->first, models);
        ++s;
    }
''')]),
 ('route-foreach', '', [(G, '''        for (auto s = r->second.begin(); s != r->second.end(); s++) {
            route((*s).first, models);
        }
''', '''        std::for_each(r->second.begin(), r->second.end(), [&](const auto &e) { route(e.first, models); });
'''), (G, '#include <map>', '#include <map>\n#include <algorithm>')]),
 ('q-aggregate', '', [(G, '''    graph_op op;
    op.op = CONNECT_PIN_TO_PIN;
    op.pin[0] = src;
    op.pin[1] = dst;
    pending.push_back(op);
''', '''    pending.push_back(graph_op{CONNECT_PIN_TO_PIN, {src, dst}, nullptr});
''')]),
 ('q-backref', '', [(G, '''    graph_op op;
    op.op = CONNECT_PIN_TO_ATOMIC;
    op.pin[0] = pin;
    op.model = model;
    pending.push_back(op);
''', '''    pending.emplace_back();
    pending.back().op = CONNECT_PIN_TO_ATOMIC;
    pending.back().pin[0] = pin;
    pending.back().model = model;
''')]),
 ('q-helper', '', [(G, '''    graph_op op;
    op.op = DISCONNECT_PIN_FROM_ATOMIC;
    op.pin[0] = pin;
    op.model = model;
    pending.push_back(op);
''', '''    enqueue(DISCONNECT_PIN_FROM_ATOMIC, pin, pin_t(), model);
'''), (G, '    void queue_remove_pin(pin_t p);', '''    void enqueue(pending_op kind, pin_t a, pin_t b, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
        graph_op op;
        op.model = std::move(model);
        op.pin[0] = a;
        op.pin[1] = b;
        op.op = kind;
        pending.push_back(std::move(op));
    }
    void queue_remove_pin(pin_t p);''')]),
 ('q-ifelse', '', [(G, '''    if (provisional) {
        queue_connect(src, dst);
        return;
    }
    // If this connection already exists, increase the instance count and return
    std::list<std::pair<pin_t, int>> &pin_list = pin_to_pin[src];
    auto iter = pin_list.begin();
    while (iter != pin_list.end()) {
        if ((*iter).first == dst) {
            // Increase the instance count and return.
            (*iter).second++;
            return;
        }
        iter++;
    }
    // Didn't find it. Add the connection.
    pin_list.push_back(std::pair<pin_t, int>(dst, 1));
''', '''    if (!provisional) {
        auto &pin_list = pin_to_pin[src];
        bool found = false;
        for (auto it = pin_list.begin(); it != pin_list.end() && !found; ++it) {
            if (it->first == dst) {
                it->second++;
                found = true;
            }
        }
        if (!found) {
            pin_list.push_back(std::make_pair(dst, 1));
        }
    } else {
        queue_connect(src, dst);
    }
''')]),
 ('worklist', '', [(G, '''    auto i = pin_to_atomic.find(pin);
    if (i != pin_to_atomic.end()) {
        for (auto j = i->second.begin(); j != i->second.end(); j++) {
            models.push_back(
                std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>(pin, (*j).first));
        }
    }
    auto r = pin_to_pin.find(pin);
    if (r != pin_to_pin.end()) {
        for (auto s = r->second.begin(); s != r->second.end(); s++) {
            route((*s).first, models);
        }
    }
''', '''    std::list<pin_t> todo;
    todo.push_back(pin);
    while (!todo.empty()) {
        pin_t at = todo.front();
        todo.pop_front();
        auto i = pin_to_atomic.find(at);
        if (i != pin_to_atomic.end()) {
            for (auto j = i->second.begin(); j != i->second.end(); j++) {
                models.push_back(std::make_pair(at, (*j).first));
            }
        }
        auto r = pin_to_pin.find(at);
        if (r != pin_to_pin.end()) {
            for (auto s = r->second.begin(); s != r->second.end(); s++) {
                todo.push_back((*s).first);
            }
        }
    }
''')]),
]
