S = 'include/adevs/simulator.h'
RULES = ['S01','S02','S03','S04','S05','S06','S07']
CASES = [
 ('while-iter', '', [(S, '    for (auto model : active) {\n        // A Mealy', '    for (auto it = active.begin(); it != active.end(); ++it) {\n        Atomic<ValueType, TimeType>* model = *it;\n        // A Mealy')]),
 ('flag-due', '', [(S, '        // Internal event if no input\n        if (model->inputs.empty()) {\n            model->delta_int();\n        } else if (model->tN == tNext) {', '        const bool due = (model->tN == tNext);\n        const bool quiet = model->inputs.empty();\n        if (quiet) {\n            model->delta_int();\n        } else if (due) {')]),
 ('ext-first', '', [(S, '''        if (model->inputs.empty()) {
            model->delta_int();
        } else if (model->tN == tNext) {
            // Confluent event if model is imminent and has input
            model->delta_conf(model->inputs);
            model->inputs.clear();
        } else {
            // External event if model is not imminent and has input
            model->delta_ext(tNext - model->tL, model->inputs);
            model->inputs.clear();
        }
''', '''        if (!(model->tN == tNext)) {
            TimeType elapsed = tNext - model->tL;
            model->delta_ext(elapsed, model->inputs);
        } else if (!model->inputs.empty()) {
            model->delta_conf(model->inputs);
        } else {
            model->delta_int();
        }
        model->inputs.clear();
''')]),
 ('helper-transition', '', [(S, '''        if (model->inputs.empty()) {
            model->delta_int();
        } else if (model->tN == tNext) {
            // Confluent event if model is imminent and has input
            model->delta_conf(model->inputs);
            model->inputs.clear();
        } else {
            // External event if model is not imminent and has input
            model->delta_ext(tNext - model->tL, model->inputs);
            model->inputs.clear();
        }
''', '        transition(model);\n'), (S, '    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);\n', '''    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
    void transition(Atomic<ValueType, TimeType>* model) {
        if (model->inputs.empty()) { model->delta_int(); return; }
        if (model->tN == tNext) model->delta_conf(model->inputs);
        else model->delta_ext(tNext - model->tL, model->inputs);
        model->inputs.clear();
    }
''')]),
 ('notify-helper', '', [(S, '        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n', '        notify_state(model);\n'), (S, '    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);\n', '''    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
    void notify_state(Atomic<ValueType, TimeType>* model) {
        for (auto it = listeners.begin(); it != listeners.end(); it++) (*it)->stateChange(*model, tNext);
    }
''')]),
 ('listeners-outer', '', [(S, '''        for (auto x : model->inputs) {
            for (auto listener : listeners) {
                listener->inputEvent(*model, x, tNext);
            }
        }''', '''        for (auto const &listener : listeners) {
            for (auto &in : model->inputs) {
                listener->inputEvent(*model, in, tNext);
            }
        }''')]),
 ('deliver-helper', '', [(S, '''        for (auto consumer : input) {
            x.pin = consumer.first;
            if (consumer.second->isMealyAtomic() != nullptr) {
                // Mealy models outputs are calculated after Moore models
                // because the Mealy output may depend on the Moore output
                orphaned.insert(consumer.second->isMealyAtomic());
                consumer.second->revisable_inputs.push_back(
                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                        nullptr,x));
            } else {
                active.insert(consumer.second.get());
                consumer.second->inputs.push_back(x);
            }
        }
        input.clear();
''', '        deliver(nullptr, input, x);\n'), (S, '''                for (auto consumer : input) {
                    x.pin = consumer.first;
                    if (consumer.second->isMealyAtomic() != nullptr) {
                        // Wait to calculate Mealy outputs until we have the
                        // output from all of the Moore models
                        orphaned.insert(consumer.second->isMealyAtomic());
                        consumer.second->revisable_inputs.push_back(
                            std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                                model,x));
                    } else {
                        active.insert(consumer.second.get());
                        consumer.second->inputs.push_back(x);
                    }
                }
                input.clear();
''', '                deliver(model, input, x);\n'), (S, '    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);\n', '''    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
    void deliver(Atomic<ValueType, TimeType>* src, std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> &input, PinValue<ValueType> x) {
        for (auto &consumer : input) {
            x.pin = consumer.first;
            auto *mealy = consumer.second->isMealyAtomic();
            if (mealy) {
                orphaned.insert(mealy);
                mealy->revisable_inputs.push_back({src, x});
            } else {
                active.insert(consumer.second.get());
                consumer.second->inputs.push_back(x);
            }
        }
        input.clear();
    }
''')]),
 ('due-notless', '', [(S, 'if (sched.minPriority() == tNext) {', 'const TimeType next = sched.minPriority();\n    if (!(tNext < next)) {')]),
 ('imm-direct', '', [(S, '        std::list<Atomic<ValueType, TimeType>*> imm(sched.visitImminent());\n        for (auto model : imm) {', '        for (auto model : sched.visitImminent()) {')]),
 ('imm-else', '', [(S, '''                orphaned.insert(model->isMealyAtomic());
                continue;
            }
            active.insert(model);
            model->output_func(model->outputs);
            for''', '''                orphaned.insert(model->isMealyAtomic());
            } else {
            active.insert(model);
            model->output_func(model->outputs);
            for'''), (S, '''                input.clear();
            }
        }
    }
    // Calculate''', '''                input.clear();
            }
            }
        }
    }
    // Calculate''')]),
 ('gather-for', '', [(S, '''        while (!model->revisable_inputs.empty()) {
            model->inputs.push_back(model->revisable_inputs.front().second);
            model->revisable_inputs.pop_front();
        }''', '''        for (auto const &r : model->revisable_inputs) {
            model->inputs.push_back(r.second);
        }
        model->revisable_inputs.clear();''')]),
 ('gather-mealyvar', '', [(S, '''        if (model->isMealyAtomic()) {
            for (auto y : model->outputs) {
                for (auto listener : listeners) {
                    listener->outputEvent(*model, y, tNext);
                }
            }
            model->isMealyAtomic()->receivers.clear();
        }''', '''        auto mealy = model->isMealyAtomic();
        if (mealy != nullptr) {
            mealy->receivers.clear();
            for (auto &y : mealy->outputs) {
                for (auto &listener : listeners) {
                    listener->outputEvent(*mealy, y, tNext);
                }
            }
        }''')]),
 ('pending-if', '', [(S, '''    while (!pending.empty()) {
        auto op = pending.front();
        pending.pop_front();
''', '''    for (; !pending.empty(); ) {
        typename Graph<ValueType, TimeType>::graph_op op = pending.front();
        pending.pop_front();
''')]),
 ('pending-each', '', [(S, '''    while (!pending.empty()) {
        auto op = pending.front();
        pending.pop_front();
''', '''    for (auto op : pending) {
'''), (S, '    graph->set_provisional(true);\n    // Get', '    pending.clear();\n    graph->set_provisional(true);\n    // Get')]),
 ('pending-helper', '', [(S, '''                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
                    schedule(op.model.get(), t);
                }
                graph->add_atomic(op.model);''', '''                if (!present(op.model)) {
                    graph->add_atomic(op.model);
                    schedule(op.model.get(), t);
                } else {
                    graph->add_atomic(op.model);
                }'''), (S, '''                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
                    sched''', '''                if (!present(op.model)) {
                    sched'''), (S, '    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);\n', '''    void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
    bool present(std::shared_ptr<Atomic<ValueType, TimeType>> const &m) const { return graph->get_atomics().count(m) > 0; }
''')]),
 ('retract-removeif', '', [(S, '''        auto iter2 = (*iter)->revisable_inputs.begin();
        while (iter2 != (*iter)->revisable_inputs.end()) {
            if ((*iter2).first == root) {
                iter2 = (*iter)->revisable_inputs.erase(iter2);
            } else {
                iter2++;
            }
        }''', '''        (*iter)->revisable_inputs.remove_if([root](auto const &in) { return in.first == root; });''')]),
 ('retract-rangefor', '', [(S, '''    auto iter = root->receivers.begin();
    while (iter != root->receivers.end()) {
        auto iter2 = (*iter)->revisable_inputs.begin();
        while (iter2 != (*iter)->revisable_inputs.end()) {
            if ((*iter2).first == root) {
                iter2 = (*iter)->revisable_inputs.erase(iter2);
            } else {
                iter2++;
            }
        }
        if ((*iter)->isMealyAtomic() != nullptr) {
            orphaned.insert((*iter)->isMealyAtomic());
            retract_mealy_output((*iter)->isMealyAtomic());
        }
        iter = root->receivers.erase(iter);
    }''', '''    for (auto *r : root->receivers) {
        for (auto i = r->revisable_inputs.begin(); i != r->revisable_inputs.end();) {
            if (i->first == root) i = r->revisable_inputs.erase(i);
            else ++i;
        }
        if (auto *m = r->isMealyAtomic()) {
            orphaned.insert(m);
            retract_mealy_output(m);
        }
    }
    root->receivers.clear();''')]),
 ('eval-switch', '', [(S, '''    if (root->inputs.empty()) {
        if (root->tN == tNext) {
            // Internal event
            root->output_func(root->outputs);
        } else {
            // No input and not imminent so nothing to do
            return;
        }
    } else if (root->tN == tNext) {
        // Confluent event
        root->confluent_output_func(root->inputs, root->outputs);
    } else {
        // External event
        root->external_output_func(tNext - root->tL, root->inputs, root->outputs);
    }''', '''    const bool due = root->tN == tNext;
    const bool quiet = root->inputs.empty();
    if (quiet && !due) return;
    if (quiet) root->output_func(root->outputs);
    else if (due) root->confluent_output_func(root->inputs, root->outputs);
    else {
        const TimeType e = tNext - root->tL;
        root->external_output_func(e, root->inputs, root->outputs);
    }''')]),
 ('eval-swap', '', [(S, '''    active.insert(root);
    orphaned.erase(root);
    // Retract our previous output
    retract_mealy_output(root);
    // Clear the output list
    root->outputs.clear();''', '''    root->outputs.clear();
    retract_mealy_output(root);
    orphaned.erase(root);
    active.insert(root);''')]),
 ('sched-rewrite', '', [(S, '''    if (dt == adevs_inf<TimeType>()) {
        model->tN = adevs_inf<TimeType>();
        sched.schedule(model, adevs_inf<TimeType>());
    } else {
        model->tN = model->tL + dt;
        if (dt < adevs_zero<TimeType>()) {
            exception err("Negative time advance", model);
            throw err;
        }
        sched.schedule(model, model->tN);
    }''', '''    if (dt < adevs_zero<TimeType>()) {
        throw exception("Negative time advance", model);
    }
    const TimeType inf = adevs_inf<TimeType>();
    model->tN = (dt == inf) ? inf : t + dt;
    sched.schedule(model, model->tN);''')]),
 ('clear-swap', '', [(S, '    for (auto model : active) {\n        model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', '    while (!active.empty()) {\n        auto m = *active.begin();\n        m->inputs.clear();\n        m->outputs.clear();\n        active.erase(active.begin());\n    }')]),
 ('two-loops', '', [(S, '        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n        // Adjust position in the schedule\n        schedule(model, t);\n    }', '''        for (auto listener : listeners) {
            listener->stateChange(*model, tNext);
        }
        changed.push_back(model);
    }
    for (auto model : changed) schedule(model, t);'''), (S, '    PinValue<ValueType> x;\n    TimeType t = tNext', '    std::vector<Atomic<ValueType, TimeType>*> changed;\n    TimeType t = tNext'), (S, '#include <list>', '#include <list>\n#include <vector>')]),
 ('extinput-copy', '', [(S, '''    for (auto y : external_input) {
        x.value = y.value;
        graph->route(y.pin, input);''', '''    std::list<PinValue<ValueType>> injected;
    injected.swap(external_input);
    for (const auto &y : injected) {
        x.value = y.value;
        graph->route(y.pin, input);'''), (S, '    external_input.clear();\n    // Route output', '    // Route output')]),
 ('x-direct', '', [(S, '''                x.value = y.value;
                graph->route(y.pin, input);
                for (auto consumer : input) {
                    x.pin = consumer.first;
                    if''', '''                graph->route(y.pin, input);
                for (auto consumer : input) {
                    PinValue<ValueType> x(consumer.first, y.value);
                    if''')]),
]
