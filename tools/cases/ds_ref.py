"""containers replaced by others of the same meaning"""
import sys
sys.path.insert(0, '/verif/tools/cases')
from sim_bugs2 import vec
SI, MO, GR, SC = ('include/adevs/' + x for x in ('simulator.h', 'models.h', 'graph.h', 'sched.h'))
RULES = ['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'G01', 'G02', 'G03', 'G04', 'Q01', 'Q02', 'R01', 'R03']
S = {f: open('/repo/' + f).read() for f in (SI, MO, GR, SC)}
CASES = []
def c(cid, *eds):
    out = []
    for f, a, b in eds:
        n = S[f].count(a)
        assert n, (cid, a)
        out += [(f, a, b)]
    CASES.append((cid, '', out))
def allof(f, a, b):
    s = S[f]; assert a in s, a
    return [(f, s, s.replace(a, b))]
def many(f, *prs):
    s = S[f]
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return (f, S[f], s)
def inc(f, h, s=None):
    return ('#include <list>', '#include <%s>\n#include <list>' % h)
c('listeners-vector', many(SI, inc(SI, 'vector'), ('std::list<std::shared_ptr<EventListener<ValueType, TimeType>>> listeners;', 'std::vector<std::shared_ptr<EventListener<ValueType, TimeType>>> listeners;')))
c('listeners-auto-ref', many(SI, ('for (auto listener : listeners)', 'for (const auto &listener : listeners)')))
c('listeners-deque', many(SI, inc(SI, 'deque'), ('std::list<std::shared_ptr<EventListener<ValueType, TimeType>>> listeners;', 'std::deque<std::shared_ptr<EventListener<ValueType, TimeType>>> listeners;')))
c('external-vector', many(SI, inc(SI, 'vector'), ('std::list<PinValue<ValueType>> external_input;', 'std::vector<PinValue<ValueType>> external_input;')))
c('external-deque', many(SI, inc(SI, 'deque'), ('std::list<PinValue<ValueType>> external_input;', 'std::deque<PinValue<ValueType>> external_input;')))
c('active-unordered', many(SI, inc(SI, 'unordered_set'), ('std::set<Atomic<ValueType, TimeType>*> active;', 'std::unordered_set<Atomic<ValueType, TimeType>*> active;')))
c('orphan-unordered', many(SI, inc(SI, 'unordered_set'), ('std::set<MealyAtomic<ValueType, TimeType>*> orphaned;', 'std::unordered_set<MealyAtomic<ValueType, TimeType>*> orphaned;')))
c('path-unordered', many(SI, inc(SI, 'unordered_set'), ('std::set<MealyAtomic<ValueType,TimeType>*>& path', 'std::unordered_set<MealyAtomic<ValueType,TimeType>*>& path'), ('std::set<MealyAtomic<ValueType, TimeType>*> path;', 'std::unordered_set<MealyAtomic<ValueType, TimeType>*> path;')))
c('path-vector', many(SI, inc(SI, 'vector'), inc(SI, 'list') if False else ('#include <set>', '#include <algorithm>\n#include <set>'), ('std::set<MealyAtomic<ValueType,TimeType>*>& path', 'std::vector<MealyAtomic<ValueType,TimeType>*>& path'), ('std::set<MealyAtomic<ValueType, TimeType>*> path;', 'std::vector<MealyAtomic<ValueType, TimeType>*> path;'),
   ('path.insert(root)', 'path.push_back(root)'), ('path.erase(root)', 'path.pop_back()'), ('path.find(consumer.second->isMealyAtomic()) != path.end()', 'std::find(path.begin(), path.end(), consumer.second->isMealyAtomic()) != path.end()')))
c('activated-vector-set', many(SI, inc(SI, 'unordered_set'), ('std::set<MealyAtomic<ValueType, TimeType>*> activated;', 'std::unordered_set<MealyAtomic<ValueType, TimeType>*> activated;')))
c('receivers-unordered', many(MO, inc(MO, 'unordered_set'), ('std::set<Atomic<ValueType, TimeType>*> receivers;', 'std::unordered_set<Atomic<ValueType, TimeType>*> receivers;')))
c('revisable-deque', many(MO, inc(MO, 'deque'), ('std::list<std::pair<Atomic<ValueType, TimeType>*,PinValue<ValueType>>> revisable_inputs;', 'std::deque<std::pair<Atomic<ValueType, TimeType>*,PinValue<ValueType>>> revisable_inputs;')))
c('revisable-vector', many(MO, inc(MO, 'vector'), ('std::list<std::pair<Atomic<ValueType, TimeType>*,PinValue<ValueType>>> revisable_inputs;', 'std::vector<std::pair<Atomic<ValueType, TimeType>*,PinValue<ValueType>>> revisable_inputs;')),
   many(SI, ('''        while (!model->revisable_inputs.empty()) {
            model->inputs.push_back(model->revisable_inputs.front().second);
            model->revisable_inputs.pop_front();
        }
''', '''        for (const auto &revisable : model->revisable_inputs) {
            model->inputs.push_back(revisable.second);
        }
        model->revisable_inputs.clear();
''')))
c('imm-vector', many(SI, inc(SI, 'vector'), ('std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());', 'const std::list<Atomic<ValueType, TimeType>*> due(sched.visitImminent());\n        std::vector<Atomic<ValueType, TimeType>*> imm(due.begin(), due.end());')))
c('imm-type', many(SI, inc(SI, 'vector'), ('std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());', 'auto imm = sched.visitImminent();')), many(SC, ('std::list<Atomic<ValueType, TimeType>*> visitImminent(void)', 'std::vector<Atomic<ValueType, TimeType>*> visitImminent(void)'), ('std::list<Atomic<ValueType, TimeType>*> activated;', 'std::vector<Atomic<ValueType, TimeType>*> activated;'), ('#include <list>' if '#include <list>' in S[SC] else '#include <cstdlib>' if '#include <cstdlib>' in S[SC] else '#include "adevs/models.h"', '#include <list>\n#include <vector>\n#include "adevs/models.h"')))
c('pending-deque', many(GR, inc(GR, 'deque'), ('std::list<graph_op> &get_pending()', 'std::deque<graph_op> &get_pending()'), ('std::list<graph_op> pending;', 'std::deque<graph_op> pending;')), many(SI, inc(SI, 'deque'), ('std::list<typename Graph<ValueType, TimeType>::graph_op> &pending', 'auto &pending')))
c('pending-vector', many(GR, inc(GR, 'vector'), ('std::list<graph_op> &get_pending()', 'std::vector<graph_op> &get_pending()'), ('std::list<graph_op> pending;', 'std::vector<graph_op> pending;')), many(SI, ('std::list<typename Graph<ValueType, TimeType>::graph_op> &pending', 'auto &pending'), ('''    while (!pending.empty()) {
        auto op = pending.front();
        pending.pop_front();
''', '''    for (const auto &op : pending) {
'''), ('    graph->set_provisional(true);\n    // Get the time', '    pending.clear();\n    graph->set_provisional(true);\n    // Get the time')))
c('pending-swap', many(SI, ('''    while (!pending.empty()) {
        auto op = pending.front();
        pending.pop_front();
''', '''    std::list<typename Graph<ValueType, TimeType>::graph_op> changes;
    changes.swap(pending);
    for (auto &op : changes) {
''')))
c('pending-move', many(SI, ('''    while (!pending.empty()) {
        auto op = pending.front();
        pending.pop_front();
''', '''    while (!pending.empty()) {
        auto op = std::move(pending.front());
        pending.pop_front();
''')))
c('route-vector', many(GR, inc(GR, 'vector'), ('std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>>', 'std::vector<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>>')), many(SI, ('std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> input;', 'std::vector<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> input;'))) if 'std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>>' in S[GR] else None
c('p2a-vector', many(GR, inc(GR, 'vector'), ('std::map<pin_t, std::list<std::pair<std::shared_ptr<Atomic<ValueType, TimeType>>, int>>>', 'std::map<pin_t, std::vector<std::pair<std::shared_ptr<Atomic<ValueType, TimeType>>, int>>>')))
c('p2p-vector', many(GR, inc(GR, 'vector'), ('std::map<pin_t, std::list<std::pair<pin_t, int>>> pin_to_pin;', 'std::map<pin_t, std::vector<std::pair<pin_t, int>>> pin_to_pin;'), ('std::list<std::pair<pin_t, int>> &pin_list', 'auto &pin_list')))
c('p2p-deque', many(GR, inc(GR, 'deque'), ('std::map<pin_t, std::list<std::pair<pin_t, int>>> pin_to_pin;', 'std::map<pin_t, std::deque<std::pair<pin_t, int>>> pin_to_pin;'), ('std::list<std::pair<pin_t, int>> &pin_list', 'auto &pin_list')))
c('count-unordered', many(GR, inc(GR, 'unordered_map'), ('std::map<Atomic<ValueType, TimeType>*, int> atomic_instance_count;', 'std::unordered_map<Atomic<ValueType, TimeType>*, int> atomic_instance_count;')))
c('count-unsigned', many(GR, ('std::map<Atomic<ValueType, TimeType>*, int> atomic_instance_count;', 'std::map<Atomic<ValueType, TimeType>*, unsigned> atomic_instance_count;')))
c('count-struct', many(GR, ('    void queue_remove_pin(pin_t p);', '    using ModelPtr = std::shared_ptr<Atomic<ValueType, TimeType>>;\n    void queue_remove_pin(pin_t p);'), ('    std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> models;', '    std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> models{};')))
c('heap-vector', many(SC, ('    heap_element* heap;', '    std::vector<heap_element> heap;'), ('    ~Schedule() { delete[] heap; }', '    ~Schedule() = default;') if '~Schedule() { delete[] heap; }' in S[SC] else ('delete[] heap;', ''), ('heap(new heap_element[this->capacity])', 'heap(this->capacity)'), (S[SC][S[SC].index('    heap_element* rheap'):S[SC].index('    heap = rheap;')], '    heap.resize(capacity * 2);\n'), ('    heap = rheap;\n', ''), ('#include "adevs/models.h"', '#include <vector>\n#include "adevs/models.h"')))
c('sizes-size_t', many(SC, ('unsigned int', 'std::size_t')))
c('typedef', many(SI, ('std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> input;', 'RouteList input;'), ('  private:\n', '  private:\n    using RouteList = std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>>;\n')) if False else many(SI, ('  private:\n', '  private:\n    using AtomicPtr = Atomic<ValueType, TimeType>*;\n'), ('std::set<Atomic<ValueType, TimeType>*> active;', 'std::set<AtomicPtr> active;')))
c('vec-active', *[(SI,) + e for e in vec('if (std::find(active.begin(), active.end(), m) == active.end()) ')])
CASES[-1] = ('vec-active', '', [(SI,) + e for e in vec('if (std::find(active.begin(), active.end(), m) == active.end()) ')])
