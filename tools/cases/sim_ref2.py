import subprocess
S = 'include/adevs/simulator.h'
RULES = ['S01','S02','S03','S04','S05','S06','S07']
SRC = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + S], capture_output=True, text=True).stdout
CASES = []
T = 'template <class ValueType, class TimeType>\n'
DECL = '    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);\n'
def seg(a, b, start=None):
    """the text from a up to (not including) b"""
    k = SRC.index(start) if start else 0
    i = SRC.index(a, k)
    j = SRC.index(b, i + len(a))
    return SRC[i:j]
def c(cid, *eds):
    CASES.append((cid, '', [(S, a, b) for a, b in eds]))
def dedent(s, n):
    return '\n'.join(l[n:] if l[:n].strip() == '' else l for l in s.split('\n'))

OUT = 'TimeType>::computeNextOutput() {'
ST = 'TimeType>::computeNextState() {'
PEND = seg('    std::list<typename Graph<ValueType, TimeType>::graph_op> &pending', '    graph->set_provisional(true);\n    // Get')
c('pending-method', (PEND, '    restructure(t);\n'), (DECL, DECL + '    void restructure(TimeType t) {\n' + PEND + '    }\n'))
c('pending-method-flag', ('    graph->set_provisional(false);\n' + PEND + '    graph->set_provisional(true);\n', '    restructure(t);\n'),
  (DECL, DECL + '    void restructure(TimeType t) {\n        graph->set_provisional(false);\n' + PEND + '        graph->set_provisional(true);\n    }\n'))
c('pending-true', ('    while (!pending.empty()) {\n', '    while (true) {\n        if (pending.empty()) {\n            break;\n        }\n'))
c('pending-do', (PEND, PEND.replace('    while (!pending.empty()) {', '    if (!pending.empty()) do {').rstrip()[:-1] + '} while (!pending.empty());\n'))
c('pending-oneop', (PEND, PEND.replace(seg('        auto op = pending.front();', '        switch (op.op)'), '        apply(pending.front(), t);\n        pending.pop_front();\n').replace(seg('        switch (op.op) {', '    graph->set_provisional(true);\n    // Get'), '    }\n')),
  (DECL, DECL + '    void apply(typename Graph<ValueType, TimeType>::graph_op &op, TimeType t) {\n' + seg('        switch (op.op) {', '    }\n    graph->set_provisional(true);\n    // Get') + '    }\n'))
c('pending-auto', ('    std::list<typename Graph<ValueType, TimeType>::graph_op> &pending', '    auto &pending'))
c('pending-move', ('        auto op = pending.front();', '        auto op = std::move(pending.front());'))
ADDC = seg('                // Do not disturb the schedule', '                break;\n            case Graph<ValueType, TimeType>::REMOVE_ATOMIC')
c('add-present', (ADDC, '''            {
                const bool present = graph->get_atomics().count(op.model) != 0;
                graph->add_atomic(op.model);
                if (!present) {
                    schedule(op.model.get(), t);
                }
            }
'''))
RMC = seg('                graph->remove_atomic(op.model);\n', '                break;\n            case Graph<ValueType, TimeType>::REMOVE_PIN')
c('rm-count', (RMC, '''            {
                graph->remove_atomic(op.model);
                const auto &left = graph->get_atomics();
                if (left.count(op.model) == 0) {
                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
                }
            }
'''))
c('rm-early', (RMC, '''                graph->remove_atomic(op.model);
                if (graph->get_atomics().find(op.model) != graph->get_atomics().end()) {
                    break;
                }
                sched.schedule(op.model.get(), adevs_inf<TimeType>());
'''))
# the output computation
EXT = seg('    // Route externally supplied inputs.', '    // Route output from the Moore')
MOO = seg('    // Route output from the Moore', '    // Calculate output from Mealy')
MEA = seg('    // Calculate output from Mealy', '    // Gather input produced')
GAT = seg('    // Gather input produced', '}\n\n' + T + 'TimeType Simul')
UNDO = seg('    // Undo prior output', '    // Route externally')
HD = '    PinValue<ValueType> x;\n    std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> input;\n'
c('split', (UNDO + EXT + MOO + MEA + GAT, '    undo();\n    external();\n    moore();\n    mealy();\n    gather();\n'),
  (HD + '    std::set<MealyAtomic<ValueType, TimeType>*> path;\n    // Undo', '    // Undo'),
  (DECL, DECL + '    void undo() {\n' + UNDO + '    }\n    void external() {\n' + HD + EXT + '    }\n    void moore() {\n' + HD + MOO + '    }\n    void mealy() {\n    std::set<MealyAtomic<ValueType, TimeType>*> path;\n' + MEA + '    }\n    void gather() {\n' + GAT + '    }\n')) if False else None
CASES = [x for x in CASES if x]
def body(*parts):
    return ''.join(parts)
CASES.append(('split', '', [(S, HD + '    std::set<MealyAtomic<ValueType, TimeType>*> path;\n' + UNDO + EXT + MOO + MEA + GAT, '    undo();\n    external();\n    moore();\n    mealy();\n    gather();\n'),
  (S, DECL, DECL + '    void undo() {\n' + UNDO + '    }\n    void external() {\n' + HD + EXT + '    }\n    void moore() {\n' + HD + MOO + '    }\n    void mealy() {\n    std::set<MealyAtomic<ValueType, TimeType>*> path;\n' + MEA + '    }\n    void gather() {\n' + GAT + '    }\n')]))
c('undo-noop', ('        model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', '        model->inputs.clear();\n        model->outputs.clear();\n    }\n    active.clear();'))
c('ext-drain', ('    for (auto y : external_input) {\n        x.value = y.value;\n        graph->route(y.pin, input);', '    while (!external_input.empty()) {\n        const PinValue<ValueType> y(external_input.front());\n        external_input.pop_front();\n        x.value = y.value;\n        graph->route(y.pin, input);'),
  ('    external_input.clear();\n    // Route output from', '    // Route output from'))
c('ifinit', *[(s, s.replace('if (consumer.second->isMealyAtomic() != nullptr) {', 'if (auto mealy = consumer.second->isMealyAtomic()) {').replace('orphaned.insert(consumer.second->isMealyAtomic());', 'orphaned.insert(mealy);')) for s in (EXT, MOO)])
c('emplace', *[(s, s.replace('''revisable_inputs.push_back(
                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                        nullptr,x));''', 'revisable_inputs.emplace_back(nullptr, x);').replace('''revisable_inputs.push_back(
                            std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                                model,x));''', 'revisable_inputs.emplace_back(model, x);')) for s in (EXT, MOO)])
c('make_pair', *[(s, s.replace('''push_back(
                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                        nullptr,x));''', 'push_back(std::make_pair((Atomic<ValueType,TimeType>*)nullptr, x));').replace('''push_back(
                            std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                                model,x));''', 'push_back({model, x});')) for s in (EXT, MOO)])
c('imm-var', ('    if (sched.minPriority() == tNext) {\n        std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());', '    const bool due = (sched.minPriority() == tNext);\n    if (due) {\n        const auto imm = sched.visitImminent();'))
c('imm-not', ('    if (sched.minPriority() == tNext) {\n        std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());\n', '    std::list<Atomic<ValueType, TimeType>*> imm;\n    if (!(tNext < sched.minPriority())) {\n        imm = sched.visitImminent();\n    }\n    {\n')) if False else None
c('imm-empty', ('    if (sched.minPriority() == tNext) {\n        std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());\n', '    std::list<Atomic<ValueType, TimeType>*> imm;\n    if (sched.minPriority() == tNext) {\n        imm = sched.visitImminent();\n    }\n    {\n'))
c('mealy-wrapper', (MEA, '    while (!orphaned.empty()) {\n        calculate_mealy_output(path, *orphaned.begin());\n    }\n'))
c('mealy-front', (MEA, '    for (auto first = orphaned.begin(); first != orphaned.end(); first = orphaned.begin()) {\n        calculate_mealy_output(path, *first);\n    }\n'))
c('gather-range', ('''        while (!model->revisable_inputs.empty()) {
            model->inputs.push_back(model->revisable_inputs.front().second);
            model->revisable_inputs.pop_front();
        }
''', '''        for (auto const &given : model->revisable_inputs) {
            model->inputs.push_back(given.second);
        }
        model->revisable_inputs.clear();
'''))
c('gather-mealyptr', ('        if (model->isMealyAtomic()) {\n            for (auto y : model->outputs) {', '        auto *mealy = model->isMealyAtomic();\n        if (mealy != nullptr) {\n            for (auto &y : model->outputs) {'), ('model->isMealyAtomic()->receivers.clear();', 'mealy->receivers.clear();'))
c('const-refs', *[(s, s.replace('for (auto consumer : input)', 'for (const auto &consumer : input)').replace('for (auto y : external_input)', 'for (const auto &y : external_input)').replace('for (auto y : model->outputs)', 'for (auto &y : model->outputs)').replace('for (auto listener : listeners)', 'for (const auto &listener : listeners)')) for s in (EXT, MOO, GAT)])
c('consumer-model', (EXT, EXT.replace('consumer.second->', 'target->').replace('consumer.second.get()', 'target').replace('            x.pin = consumer.first;\n', '            x.pin = consumer.first;\n            Atomic<ValueType, TimeType>* target = consumer.second.get();\n')))
c('structured', (MOO, MOO.replace('for (auto consumer : input)', 'for (auto &[at, who] : input)').replace('consumer.first', 'at').replace('consumer.second', 'who')))
c('lambda', (EXT, '''    auto give = [&](Atomic<ValueType, TimeType>* from, PinValue<ValueType> const &y) {
        x.value = y.value;
        graph->route(y.pin, input);
        for (auto &consumer : input) {
            x.pin = consumer.first;
            if (consumer.second->isMealyAtomic() != nullptr) {
                orphaned.insert(consumer.second->isMealyAtomic());
                consumer.second->revisable_inputs.push_back({from, x});
            } else {
                active.insert(consumer.second.get());
                consumer.second->inputs.push_back(x);
            }
        }
        input.clear();
    };
    for (auto &y : external_input) {
        give(nullptr, y);
    }
    external_input.clear();
'''), (seg('                x.value = y.value;\n                graph->route(y.pin, input);', '            }\n        }\n    }\n    // Calculate output from Mealy'), '                give(model, y);\n'))
c('local-input', *[(s, s.replace('graph->route(y.pin, input);', 'std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> to;\n        graph->route(y.pin, to);').replace(': input)', ': to)').replace('        input.clear();\n', '')) for s in (EXT, MOO)])
c('fresh-x', *[(s, s.replace('x.value = y.value;\n', '').replace('x.pin = consumer.first;', 'PinValue<ValueType> x(consumer.first, y.value);')) for s in (EXT, MOO)])
# the state computation
LOOP = seg('    for (auto model : active) {\n        // A Mealy', '    active.clear();\n    // Effect')
c('snapshot', ('    for (auto model : active) {\n        // A Mealy', '    std::vector<Atomic<ValueType, TimeType>*> todo(active.begin(), active.end());\n    for (auto model : todo) {\n        // A Mealy'), ('#include <set>\n', '#include <set>\n#include <vector>\n'))
c('positive', ('        if (model->inputs.empty() && !(model->tN == tNext)) {\n            continue;\n        }\n', '        const bool imminent = model->tN == tNext;\n        if (!imminent && model->inputs.empty()) {\n            continue;\n        }\n'))
c('wrapped', (LOOP, LOOP.replace('        if (model->inputs.empty() && !(model->tN == tNext)) {\n            continue;\n        }\n', '        if (!model->inputs.empty() || model->tN == tNext) {\n').rstrip()[:-1] + '    }\n    }\n'))
c('step-method', (LOOP, '    for (auto model : active) {\n        step(model, t);\n    }\n'), (DECL, DECL + '    void step(Atomic<ValueType, TimeType>* model, TimeType const &t) {\n' + LOOP.split('\n', 1)[1].replace('continue;', 'return;').rstrip()[:-1] + '    }\n'))
c('now', ('    TimeType t = tNext + adevs_epsilon<TimeType>();\n', '    const TimeType now = tNext;\n    const TimeType t = now + adevs_epsilon<TimeType>();\n'), (LOOP, LOOP.replace('tNext', 'now')))
c('elapsed', ('model->delta_ext(tNext - model->tL, model->inputs);', '{\n                TimeType const e = tNext - model->tL;\n                model->delta_ext(e, model->inputs);\n            }'))
c('kinds', (seg('        // Internal event if no input\n', '        for (auto listener : listeners) {\n            listener->stateChange'), '''        enum { INTERNAL, CONFLUENT, EXTERNAL } kind = INTERNAL;
        if (!model->inputs.empty()) {
            kind = (model->tN == tNext) ? CONFLUENT : EXTERNAL;
        }
        switch (kind) {
            case INTERNAL:
                model->delta_int();
                break;
            case CONFLUENT:
                model->delta_conf(model->inputs);
                break;
            case EXTERNAL:
                model->delta_ext(tNext - model->tL, model->inputs);
                break;
        }
        model->inputs.clear();
'''))
c('clear-always', (seg('            model->delta_conf(model->inputs);\n', '        for (auto listener : listeners) {\n            listener->stateChange'), '''            model->delta_conf(model->inputs);
        } else {
            model->delta_ext(tNext - model->tL, model->inputs);
        }
        model->inputs.clear();
'''))
c('return-tmp', ('    tNext = sched.minPriority();\n    return t;', '    TimeType next = sched.minPriority();\n    tNext = next;\n    return t;'))
c('return-eps', ('    tNext = sched.minPriority();\n    return t;', '    const TimeType last = tNext;\n    tNext = sched.minPriority();\n    return last + adevs_epsilon<TimeType>();'))
# schedule
SCH = seg('    model->tL = t;\n    TimeType dt = model->ta();', '}\n\n}  // namespace')
c('sch-ternary', (SCH, '''    TimeType const dt = model->ta();
    if (dt < adevs_zero<TimeType>()) {
        throw exception("Negative time advance", model);
    }
    model->tL = t;
    model->tN = (dt == adevs_inf<TimeType>()) ? dt : t + dt;
    sched.schedule(model, model->tN);
'''))
c('sch-early', (SCH, SCH.replace('    } else {\n', '        return;\n    }\n    {\n')))
c('sch-when', (SCH, '''    const TimeType dt = model->ta();
    TimeType when = adevs_inf<TimeType>();
    if (!(dt == adevs_inf<TimeType>())) {
        if (dt < adevs_zero<TimeType>()) {
            throw exception("Negative time advance", model);
        }
        when = t + dt;
    }
    model->tL = t;
    model->tN = when;
    sched.schedule(model, when);
'''))
# constructors
CT = '        schedule(atomic.get(), adevs_zero<TimeType>());\n    }\n    tNext = sched.minPriority();\n'
c('ctor-helper', (seg('    graph->set_provisional(true);\n    for (auto atomic : model->get_atomics())', '}\n'), '    graph->set_provisional(true);\n    start();\n') if False else
  ('    for (auto atomic : model->get_atomics()) {\n' + CT, '    start();\n'), ('    for (auto atomic : graph->get_atomics()) {\n' + CT, '    start();\n'),
  (DECL, DECL + '    void start() {\n        for (auto &atomic : graph->get_atomics()) {\n            schedule(atomic.get(), adevs_zero<TimeType>());\n        }\n        tNext = sched.minPriority();\n    }\n'))
c('ctor-delegate', (seg('    : graph(new Graph<ValueType, TimeType>()) {\n    graph->add_atomic(model);', '    tNext'), '    : graph(std::make_shared<Graph<ValueType, TimeType>>()) {\n    const TimeType zero = adevs_zero<TimeType>();\n    graph->add_atomic(model);\n    graph->set_provisional(true);\n    schedule(model.get(), zero);\n'))
c('ctor-iter', ('    for (auto atomic : model->get_atomics()) {\n        schedule(atomic.get(), adevs_zero<TimeType>());', '    const auto &all = model->get_atomics();\n    for (auto it = all.begin(); it != all.end(); ++it) {\n        schedule((*it).get(), adevs_zero<TimeType>());'))
# mealy
CM = seg('    PinValue<ValueType> x;\n    std::set<Atomic<ValueType, TimeType>*> retracted;', '}\n\ntemplate', 'TimeType>::calculate_mealy_output(\n    std::set<')
c('m-count', ('if (path.find(consumer.second->isMealyAtomic()) != path.end()) {', 'if (path.count(consumer.second->isMealyAtomic()) > 0) {'))
c('m-unused', ('    std::set<Atomic<ValueType, TimeType>*> retracted;\n', ''))
c('m-order', ('    active.insert(root);\n    orphaned.erase(root);\n', '    orphaned.erase(root);\n    active.insert(root);\n'))
c('m-due', (seg('    if (root->inputs.empty()) {\n        if (root->tN == tNext) {', '    // Add us to the path'), '''    const bool due = (root->tN == tNext);
    if (root->inputs.empty() && !due) {
        return;
    }
    if (root->inputs.empty()) {
        root->output_func(root->outputs);
    } else if (due) {
        root->confluent_output_func(root->inputs, root->outputs);
    } else {
        root->external_output_func(tNext - root->tL, root->inputs, root->outputs);
    }
'''))
c('m-mealyvar', (CM, CM.replace('for (auto consumer : input) {\n', 'for (auto &consumer : input) {\n            MealyAtomic<ValueType, TimeType>* const next = consumer.second->isMealyAtomic();\n').replace('consumer.second->isMealyAtomic() != nullptr', 'next != nullptr').replace('consumer.second->isMealyAtomic()', 'next').replace('const next = next;', 'const next = consumer.second->isMealyAtomic();')))
c('m-check-first', (CM, CM.replace('''                activated.insert(consumer.second->isMealyAtomic());
                if (path''', '''                if (path''').replace('''are illegal", root);
                }
''', '''are illegal", root);
                }
                activated.insert(consumer.second->isMealyAtomic());
''')))
c('m-clear-early', (CM, CM.replace('    // Clear the input list\n    root->inputs.clear();\n', '').replace('    // Add us to the path for', '    root->inputs.clear();\n    // Add us to the path for')))
c('m-descend-iter', (CM, CM.replace('    for (auto model: activated) {\n', '    for (auto it = activated.cbegin(); it != activated.cend(); ++it) {\n        auto model = *it;\n')))
c('m-gather-std', (CM, CM.replace('    for (auto revisable_input: root->revisable_inputs) {\n        root->inputs.push_back(revisable_input.second);\n    }\n', '    root->gather_inputs();\n')), ) if False else None
RT = seg('    auto iter = root->receivers.begin();', '}\n\ntemplate', 'retract_mealy_output(\n    MealyAtomic')
c('r-forelse', (RT, '''    for (auto iter = root->receivers.begin(); iter != root->receivers.end(); iter = root->receivers.erase(iter)) {
        auto &given = (*iter)->revisable_inputs;
        for (auto iter2 = given.begin(); iter2 != given.end();) {
            if (iter2->first != root) {
                ++iter2;
                continue;
            }
            iter2 = given.erase(iter2);
        }
        MealyAtomic<ValueType, TimeType>* mealy = (*iter)->isMealyAtomic();
        if (mealy) {
            orphaned.insert(mealy);
            retract_mealy_output(mealy);
        }
    }
'''))
c('r-clear', (RT, '''    for (auto receiver : root->receivers) {
        receiver->revisable_inputs.remove_if([root](const auto &in) { return in.first == root; });
        if (receiver->isMealyAtomic() == nullptr) {
            continue;
        }
        orphaned.insert(receiver->isMealyAtomic());
        retract_mealy_output(receiver->isMealyAtomic());
    }
    root->receivers.clear();
'''))
c('exec', ('        computeNextOutput();\n        return computeNextState();\n', '        computeNextOutput();\n        TimeType const t = computeNextState();\n        return t;\n'))
CASES = [x for x in CASES if x]
c('iife', ('        // Internal event if no input\n        if (model->inputs.empty()) {', '        const bool imminent = [&]() { return model->tN == tNext; }();\n        // Internal event if no input\n        if (model->inputs.empty()) {'), ('        } else if (model->tN == tNext) {\n            // Confluent event if', '        } else if (imminent) {\n            // Confluent event if'))
c('foreach-lambda', (LOOP, '    auto advance = [this, t](Atomic<ValueType, TimeType>* model) {\n' + LOOP.split('\n', 1)[1].replace('continue;', 'return;').rstrip()[:-1] + '    };\n    std::for_each(active.begin(), active.end(), advance);\n'), ('#include <set>\n', '#include <set>\n#include <algorithm>\n'))
c('lambda-call', (LOOP, '    auto advance = [this, t](Atomic<ValueType, TimeType>* model) {\n' + LOOP.split('\n', 1)[1].replace('continue;', 'return;').rstrip()[:-1] + '    };\n    for (auto model : active) {\n        advance(model);\n    }\n'))
