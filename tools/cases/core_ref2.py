import subprocess
RULES = ['G01','G02','G03','G04','Q01','Q02','R01','R02','R03']
G = 'include/adevs/graph.h'; M = 'include/adevs/models.h'; Q = 'include/adevs/sched.h'
SRC = {f: subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True).stdout for f in (G, M, Q)}
CASES = []
def seg(f, start, a, b):
    k = SRC[f].index(start)
    i = SRC[f].index(a, k)
    j = SRC[f].index(b, i + len(a))
    return SRC[f][i:j]
def fnbody(f, start):
    k = SRC[f].index(start)
    i = SRC[f].index('{\n', k) + 2
    j = SRC[f].index('\n}\n', i) + 1
    return SRC[f][i:j]
def whole(f, start, new):
    """replaces the body of a function, keeping its head"""
    k = SRC[f].index(start)
    i = SRC[f].index('{\n', k) + 2
    old = SRC[f][k:i] + fnbody(f, start)
    return (f, old, SRC[f][k:i] + new)
def c(cid, *eds):
    CASES.append((cid, '', list(eds)))
MT = 'std::shared_ptr<Atomic<ValueType, TimeType>>'
CP = 'TimeType>::connect(pin_t src, pin_t dst) {'
DP = 'TimeType>::disconnect(pin_t src, pin_t dst) {'
CA = 'TimeType>::connect(pin_t pin,\n'
DA = 'TimeType>::disconnect(pin_t pin,\n'
RP = 'TimeType>::remove_pin(pin_t pin) {'
AA = 'TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {'
RA = 'TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {'
RO = 'TimeType>::route(\n'
DECL = '    void queue_remove_pin(pin_t p);\n'
Gp = lambda n, a: '    if (provisional) {\n        queue_%s(%s);\n        return;\n    }\n' % (n, a)
c('conn-tmpl', whole(G, CP, Gp('connect', 'src, dst') + '    enter(pin_to_pin[src], dst);\n'), whole(G, CA, Gp('connect', 'pin, model') + '    enter(pin_to_atomic[pin], model);\n'),
  (G, DECL, '''    template <typename L, typename T>
    static void enter(L &list, T const &target) {
        for (auto &entry : list) {
            if (entry.first == target) {
                ++entry.second;
                return;
            }
        }
        list.emplace_back(target, 1);
    }
''' + DECL))
c('disc-tmpl', whole(G, DP, Gp('disconnect', 'src, dst') + '    leave(pin_to_pin, src, dst);\n'), whole(G, DA, Gp('disconnect', 'pin, model') + '    leave(pin_to_atomic, pin, model);\n'),
  (G, DECL, '''    template <typename MAP, typename T>
    static void leave(MAP &map, pin_t pin, T const &target) {
        auto found = map.find(pin);
        if (found == map.end()) {
            return;
        }
        auto &list = found->second;
        for (auto iter = list.begin(); iter != list.end(); ++iter) {
            if (iter->first != target) {
                continue;
            }
            if (--iter->second == 0) {
                list.erase(iter);
            }
            break;
        }
        if (list.empty()) {
            map.erase(found);
        }
    }
''' + DECL))
c('disc-find', whole(G, DP, Gp('disconnect', 'src, dst') + '''    const auto found = pin_to_pin.find(src);
    if (found == pin_to_pin.end()) return;
    auto &list = found->second;
    auto at = std::find_if(list.begin(), list.end(), [dst](const std::pair<pin_t, int> &entry) { return entry.first == dst; });
    if (at == list.end()) {
        return;
    }
    at->second -= 1;
    if (at->second > 0) {
        return;
    }
    list.erase(at);
    if (list.empty()) {
        pin_to_pin.erase(found);
    }
'''), (G, '#include <list>\n', '#include <list>\n#include <algorithm>\n'))
c('rp-split', whole(G, RP, Gp('remove_pin', 'pin') + '    shrink(pin_to_atomic, pin);\n    shrink(pin_to_pin, pin);\n'),
  (G, DECL, '''    template <typename MAP>
    void shrink(MAP &map, pin_t pin) {
        auto found = map.find(pin);
        if (found == map.end()) {
            return;
        }
        auto &list = found->second;
        for (auto iter = list.begin(); iter != list.end();) {
            if (--iter->second == 0) {
                iter = list.erase(iter);
            } else {
                ++iter;
            }
        }
        if (list.empty()) {
            map.erase(found);
        }
    }
''' + DECL))
c('rp-removeif', whole(G, RP, Gp('remove_pin', 'pin') + '''    auto &atomic_list = pin_to_atomic[pin];
    atomic_list.remove_if([](auto &entry) { return --entry.second == 0; });
    if (atomic_list.empty()) {
        pin_to_atomic.erase(pin);
    }
    auto &pin_list = pin_to_pin[pin];
    pin_list.remove_if([](auto &entry) { return --entry.second == 0; });
    if (pin_list.empty()) {
        pin_to_pin.erase(pin);
    }
'''))
c('aa-insert', whole(G, AA, Gp('add_atomic', 'model') + '''    auto result = atomic_instance_count.insert({model.get(), 1});
    if (!result.second) {
        result.first->second++;
        return;
    }
    models.insert(model);
'''))
c('aa-inc', whole(G, AA, Gp('add_atomic', 'model') + '''    int &count = atomic_instance_count[model.get()];
    count++;
    if (count == 1) {
        models.insert(model);
    }
'''))
c('aa-try', whole(G, AA, Gp('add_atomic', 'model') + '''    auto [at, fresh] = atomic_instance_count.try_emplace(model.get(), 0);
    at->second += 1;
    if (fresh) models.insert(model);
'''))
c('aa-always-insert', whole(G, AA, Gp('add_atomic', 'model') + '''    models.insert(model);
    atomic_instance_count[model.get()]++;
'''))
c('ra-helper', whole(G, RA, Gp('remove_atomic', 'model') + '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter == atomic_instance_count.end() || --(instance_iter->second) > 0) {
        return;
    }
    atomic_instance_count.erase(instance_iter);
    for (auto &coupled : pin_to_atomic) {
        forget(coupled.second, model);
    }
    models.erase(model);
'''), (G, DECL, '''    void forget(std::list<std::pair<std::shared_ptr<Atomic<ValueType, TimeType>>, int>> &list, std::shared_ptr<Atomic<ValueType, TimeType>> const &model) {
        for (auto iter = list.begin(); iter != list.end();) {
            iter = (iter->first == model) ? list.erase(iter) : std::next(iter);
        }
    }
''' + DECL))
c('ra-removeif', whole(G, RA, Gp('remove_atomic', 'model') + '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter == atomic_instance_count.end()) {
        return;
    }
    const int left = instance_iter->second - 1;
    if (left > 0) {
        instance_iter->second = left;
        return;
    }
    for (auto &entry : pin_to_atomic) {
        entry.second.remove_if([&model](const auto &to) { return to.first == model; });
    }
    atomic_instance_count.erase(instance_iter);
    models.erase(model);
'''))
c('ra-erasefirst', whole(G, RA, Gp('remove_atomic', 'model') + '''    auto instance_iter = atomic_instance_count.find(model.get());
    if (instance_iter == atomic_instance_count.end()) {
        return;
    }
    if ((*instance_iter).second > 1) {
        (*instance_iter).second--;
        return;
    }
    atomic_instance_count.erase(instance_iter);
    models.erase(model);
    for (auto &[pin, list] : pin_to_atomic) {
        auto iter = list.begin();
        while (iter != list.end()) {
            if (iter->first != model) {
                ++iter;
            } else {
                list.erase(iter++);
            }
        }
    }
'''))
c('route-split', whole(G, RO, '    route_atomic(pin, models);\n    route_pins(pin, models);\n'), (G, DECL, '''    typedef std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> routed;
    void route_atomic(pin_t pin, routed &models) const {
        auto i = pin_to_atomic.find(pin);
        if (i == pin_to_atomic.end()) {
            return;
        }
        for (const auto &to : i->second) {
            models.emplace_back(pin, to.first);
        }
    }
    void route_pins(pin_t pin, routed &models) const {
        auto r = pin_to_pin.find(pin);
        if (r == pin_to_pin.end()) {
            return;
        }
        for (const auto &to : r->second) {
            route(to.first, models);
        }
    }
''' + DECL))
c('route-at', whole(G, RO, '''    if (pin_to_atomic.count(pin) != 0) {
        for (auto const &to : pin_to_atomic.at(pin)) {
            models.push_back(std::make_pair(pin, to.first));
        }
    }
    if (pin_to_pin.count(pin) != 0) {
        for (auto const &next : pin_to_pin.at(pin)) {
            route(next.first, models);
        }
    }
'''))
c('route-transform', whole(G, RO, '''    const auto i = pin_to_atomic.find(pin);
    if (i != pin_to_atomic.end()) {
        const auto &targets = i->second;
        for (auto j = targets.cbegin(); j != targets.cend(); ++j) {
            const auto &model = j->first;
            models.push_back({pin, model});
        }
    }
    const auto r = pin_to_pin.find(pin);
    if (r == pin_to_pin.end()) return;
    const auto &pins = r->second;
    for (auto s = pins.cbegin(); s != pins.cend(); ++s) {
        route(s->first, models);
    }
'''))
c('queue-one', whole(G, 'TimeType>::queue_connect(pin_t src', '    enqueue(CONNECT_PIN_TO_PIN, src, dst, nullptr);\n'), whole(G, 'TimeType>::queue_disconnect(pin_t src', '    enqueue(DISCONNECT_PIN_FROM_PIN, src, dst, nullptr);\n'),
  (G, DECL, '''    void enqueue(int what, pin_t from, pin_t to, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
        pending.emplace_back();
        graph_op &op = pending.back();
        op.op = static_cast<decltype(op.op)>(what);
        op.pin[0] = from;
        op.pin[1] = to;
        op.model = model;
    }
''' + DECL)) if False else None
c('prov-nested', (G, SRC[G][SRC[G].index('    if (provisional) {\n        queue_add_atomic(model);'):][:len('    if (provisional) {\n        queue_add_atomic(model);\n        return;\n    }\n')], '    if (provisional == true) {\n        return queue_add_atomic(model);\n    }\n'))
c('early-find', whole(G, CP, Gp('connect', 'src, dst') + '''    auto &targets = pin_to_pin[src];
    bool known = false;
    for (auto &target : targets) {
        if (target.first == dst) {
            target.second++;
            known = true;
            break;
        }
    }
    if (!known) {
        targets.push_back({dst, 1});
    }
'''))
c('conn-forever', whole(G, CA, Gp('connect', 'pin, model') + '''    auto &atomic_list = pin_to_atomic[pin];
    auto iter = atomic_list.begin();
    for (;;) {
        if (iter == atomic_list.end()) {
            break;
        }
        if ((*iter).first == model) {
            (*iter).second++;
            return;
        }
        iter++;
    }
    atomic_list.push_back(std::make_pair(model, 1));
'''))
# coupled models
AG = 'TimeType>::assign_to_graph('
RG = 'TimeType>::remove_from_graph() {'
c('assign-refs', whole(M, AG, fnbody(M, AG).replace('for (auto ', 'for (const auto &')))
c('assign-if', whole(M, AG, fnbody(M, AG).replace('    g_count = (g == graph) ? g_count + 1 : 1;\n    g = graph;\n', '    if (g == graph) {\n        g_count++;\n    } else {\n        g = graph;\n        g_count = 1;\n    }\n')))
c('assign-helper', whole(M, AG, fnbody(M, AG).replace(fnbody(M, AG)[fnbody(M, AG).index('    for (auto coupling : pin_to_atomic'):fnbody(M, AG).index('    for (auto coupled :')], '    join_couplings();\n')),
  (M, '    void remove_from_graph();\n', '    void remove_from_graph();\n    void join_couplings() {\n' + fnbody(M, AG)[fnbody(M, AG).index('    for (auto coupling : pin_to_atomic'):fnbody(M, AG).index('    for (auto coupled :')] + '    }\n'))
c('assign-structured', whole(M, AG, fnbody(M, AG).replace('for (auto coupling : ', 'for (auto const &[from, to] : ').replace('coupling.first', 'from').replace('coupling.second', 'to')))
c('assign-graph', whole(M, AG, fnbody(M, AG).replace('g->', 'graph->').replace('assign_to_graph(g)', 'assign_to_graph(graph)')))
c('leave-order', whole(M, RG, '''    for (auto &coupled : coupled_components) {
        coupled->remove_from_graph();
    }
    for (auto &coupling : pin_to_pin) {
        g->disconnect(coupling.first, coupling.second);
    }
    for (auto &coupling : pin_to_atomic) {
        g->disconnect(coupling.first, coupling.second);
    }
    for (auto &atomic : atomic_components) {
        g->remove_atomic(atomic);
    }
    g_count--;
    if (g_count == 0) {
        g = nullptr;
    }
''')) if False else None
c('leave-count', whole(M, RG, fnbody(M, RG).replace('    if (--g_count == 0) {\n        g = nullptr;\n    }\n', '    g_count -= 1;\n    if (g_count <= 0) {\n        g = nullptr;\n    }\n')))
c('leave-local', whole(M, RG, fnbody(M, RG).replace('g->', 'graph->').replace('    for (auto atomic', '    Graph<ValueType, TimeType>* const graph = g;\n    for (auto atomic', 1)))
c('rm-atomic-each', whole(M, 'TimeType>::remove_atomic(', '''    atomic_components.erase(model);
    for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
        if (iter->second == model) {
            if (g != nullptr) {
                g->disconnect(iter->first, model);
            }
            pin_to_atomic.erase(iter++);
        } else {
            ++iter;
        }
    }
    if (g != nullptr) {
        g->remove_atomic(model);
    }
'''))
c('rm-atomic-two', whole(M, 'TimeType>::remove_atomic(', '''    atomic_components.erase(model);
    std::list<pin_t> pins;
    for (auto const &coupling : pin_to_atomic) {
        if (coupling.second == model) {
            pins.push_back(coupling.first);
        }
    }
    for (auto pin : pins) {
        remove_coupling(pin, model);
    }
    if (g) {
        g->remove_atomic(model);
    }
'''))
c('g-not', *[(M, a, b) for a, b in (('    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g != nullptr) {\n        g->connect(pin, model);\n    }\n', '    pin_to_atomic.emplace(pin, model);\n    if (!g) {\n        return;\n    }\n    g->connect(pin, model);\n'),
  ('    pin_to_pin.erase(std::make_pair(src, dst));\n    if (g != nullptr) {\n        g->disconnect(src, dst);\n    }\n', '    const std::pair<pin_t, pin_t> coupling(src, dst);\n    if (g != nullptr) {\n        g->disconnect(coupling.first, coupling.second);\n    }\n    pin_to_pin.erase(coupling);\n'))])
c('joined', (M, '    void remove_from_graph();\n', '    void remove_from_graph();\n    bool joined() const { return g != nullptr; }\n'), whole(M, 'TimeType>::add_atomic(', '    atomic_components.insert(model);\n    if (joined()) {\n        g->add_atomic(model);\n    }\n'), whole(M, 'TimeType>::remove_coupled_model(', '    coupled_components.erase(model);\n    if (!joined()) {\n        return;\n    }\n    model->remove_from_graph();\n'))
# queue
UP = 'TimeType>::percolate_up(unsigned'
DN = 'TimeType>::percolate_down(unsigned'
RM = 'TimeType>::removeMinimum() {'
SC = 'TimeType>::schedule(Atomic'
EN = 'TimeType>::enlarge() {'
VI = 'TimeType>::visitImminent(unsigned int root) {'
c('up-for', whole(Q, UP, '''    for (unsigned int parent = index / 2; priority <= heap[parent].priority; parent = index / 2) {
        heap[index] = heap[parent];
        heap[index].item->q_index = index;
        index = parent;
    }
    return index;
'''))
c('up-not-less', whole(Q, UP, '''    while (!(heap[index / 2].priority < priority)) {
        heap_element &parent = heap[index / 2];
        heap[index] = parent;
        heap[index].item->q_index = index;
        index /= 2;
    }
    return index;
'''))
c('up-forever', whole(Q, UP, '''    while (true) {
        const unsigned int parent = index / 2;
        if (!(priority <= heap[parent].priority)) {
            return index;
        }
        heap[index] = heap[parent];
        heap[index].item->q_index = index;
        index = parent;
    }
'''))
c('up-move-helper', whole(Q, UP, '''    while (priority <= heap[index / 2].priority) {
        move(index / 2, index);
        index /= 2;
    }
    return index;
'''), whole(Q, DN, fnbody(Q, DN).replace('            heap[index] = heap[child];\n            heap[index].item->q_index = index;\n', '            move(child, index);\n')), (Q, '    /// Double the schedule capacity\n', '    void move(unsigned int from, unsigned int to) {\n        heap[to] = heap[from];\n        heap[to].item->q_index = to;\n    }\n    /// Double the schedule capacity\n'))
c('down-forever', whole(Q, DN, '''    for (;;) {
        unsigned int child = 2 * index;
        if (child > size) {
            break;
        }
        if (child < size && heap[child + 1].priority < heap[child].priority) {
            child += 1;
        }
        if (!(heap[child].priority < priority)) {
            break;
        }
        heap[index] = heap[child];
        heap[index].item->q_index = index;
        index = child;
    }
    return index;
'''))
c('down-while-true', whole(Q, DN, '''    while (true) {
        const unsigned int left = 2 * index;
        const unsigned int right = left + 1;
        if (left > size) {
            return index;
        }
        const unsigned int least = (right <= size && heap[right].priority < heap[left].priority) ? right : left;
        if (!(heap[least].priority < priority)) {
            return index;
        }
        heap[index] = heap[least];
        heap[index].item->q_index = index;
        index = least;
    }
'''))
c('rm-early', whole(Q, RM, '''    if (size == 0) {
        return;
    }
    heap[1].item->q_index = 0;
    heap[1].item = nullptr;
    size--;
    if (size == 0) {
        heap[1].priority = adevs_inf<TimeType>();
        return;
    }
    heap_element &last = heap[size + 1];
    const unsigned int i = percolate_down(1, last.priority);
    heap[i] = last;
    heap[i].item->q_index = i;
    last.item = nullptr;
'''))
c('rm-last', whole(Q, RM, '''    if (empty()) {
        return;
    }
    const unsigned int last = size--;
    heap[1].item->q_index = 0;
    heap[1].item = nullptr;
    if (last == 1) {
        heap[1].priority = adevs_inf<TimeType>();
    } else {
        const unsigned int hole = percolate_down(1, heap[last].priority);
        heap[hole] = heap[last];
        heap[hole].item->q_index = hole;
        heap[last].item = nullptr;
    }
'''))
SB = fnbody(Q, SC)
c('sch-split', whole(Q, SC, '''    const bool finite = priority < adevs_inf<TimeType>();
    if (model->q_index == 0) {
        if (finite) {
            size++;
            if (size == capacity) {
                enlarge();
            }
            put(model, percolate_up(size, priority), priority);
        }
        return;
    }
    if (!finite) {
        TimeType min_priority = minPriority();
        put(model, percolate_up(model->q_index, min_priority), min_priority);
        removeMinimum();
        return;
    }
    const TimeType now = heap[model->q_index].priority;
    if (priority < now) {
        put(model, percolate_up(model->q_index, priority), priority);
    } else if (now < priority) {
        put(model, percolate_down(model->q_index, priority), priority);
    }
'''), (Q, '    /// Double the schedule capacity\n', '''    void put(Atomic<ValueType, TimeType>* model, unsigned int index, TimeType priority) {
        model->q_index = index;
        heap[index].item = model;
        heap[index].priority = priority;
    }
    /// Double the schedule capacity
'''))
c('sch-same-first', whole(Q, SC, SB.replace('        // Decrease the time to next event\n        else if (priority', '        if (priority == heap[model->q_index].priority) {\n            return;\n        }\n        // Decrease the time to next event\n        if (priority')))
c('sch-remove-fn', whole(Q, SC, SB.replace(SB[SB.index('            // Move the item to the top'):SB.index('            removeMinimum();')], '            bring_up(model);\n')), (Q, '    /// Double the schedule capacity\n', '''    void bring_up(Atomic<ValueType, TimeType>* model) {
        const TimeType min_priority = minPriority();
        const unsigned int at = percolate_up(model->q_index, min_priority);
        model->q_index = at;
        heap[at].priority = min_priority;
        heap[at].item = model;
    }
    /// Double the schedule capacity
'''))
c('sch-cap', whole(Q, SC, SB.replace('        size++;\n        if (size == capacity) {\n            enlarge();\n        }\n', '        if (size + 1 == capacity) {\n            enlarge();\n        }\n        size++;\n')))
c('sch-cap-ge', whole(Q, SC, SB.replace('        if (size == capacity) {\n', '        if (size >= capacity) {\n')))
c('en-copy', whole(Q, EN, '''    const unsigned int grown = 2 * capacity;
    heap_element* const bigger = new heap_element[grown];
    std::copy(heap, heap + capacity, bigger);
    delete[] heap;
    heap = bigger;
    capacity = grown;
'''), (Q, '#include <list>\n', '#include <algorithm>\n#include <list>\n'))
c('en-unique', whole(Q, EN, '''    std::unique_ptr<heap_element[]> bigger(new heap_element[capacity * 2]);
    for (unsigned int i = 0; i != capacity; ++i) {
        bigger[i] = heap[i];
    }
    std::swap(heap, *new (&heap) (heap_element*)(heap));
''')) if False else None
c('en-swap', whole(Q, EN, '''    heap_element* rheap = new heap_element[2 * capacity];
    for (unsigned int i = 0; i < capacity; ++i) {
        std::swap(rheap[i], heap[i]);
    }
    std::swap(heap, rheap);
    delete[] rheap;
    capacity += capacity;
'''))
c('en-upto-size', whole(Q, EN, fnbody(Q, EN).replace('i < capacity', 'i < size')))
c('vi-neg', whole(Q, VI, '''    if (root <= size && !(heap[1].priority < heap[root].priority)) {
        visit(heap[root].item);
        visitImminent(root * 2);
        visitImminent(root * 2 + 1);
    }
'''))
c('vi-two', whole(Q, VI, '''    if (root > size) {
        return;
    }
    const heap_element &here = heap[root];
    if (heap[1].priority < here.priority) {
        return;
    }
    visit(here.item);
    for (unsigned int child = 2 * root; child <= 2 * root + 1; ++child) {
        visitImminent(child);
    }
'''))
c('vi-stack', whole(Q, VI, '''    std::list<unsigned int> todo(1, root);
    while (!todo.empty()) {
        const unsigned int at = todo.front();
        todo.pop_front();
        if (at > size || heap[1].priority < heap[at].priority) {
            continue;
        }
        visit(heap[at].item);
        todo.push_back(2 * at);
        todo.push_back(2 * at + 1);
    }
'''))
CASES = [x for x in CASES if x]
