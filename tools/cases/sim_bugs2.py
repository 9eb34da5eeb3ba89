SI = 'include/adevs/simulator.h'
MO = 'include/adevs/models.h'
EX = 'include/adevs/exception.h'
GR = 'include/adevs/graph.h'
CASES = []
def c(cid, want, *eds):
    CASES.append((cid, want, [(e if len(e) == 3 else (SI,) + e) for e in eds]))
c('list-active', 'S01', ('std::set<Atomic<ValueType, TimeType>*> active;', 'std::multiset<Atomic<ValueType, TimeType>*> active;'))
c('skip-or', 'S01', ('if (model->inputs.empty() && !(model->tN == tNext)) {', 'if (model->inputs.empty() && model->tN > tNext + adevs_epsilon<TimeType>()) {'))
c('conf-le', 'S01', ('            model->delta_int();\n        } else if (model->tN == tNext) {', '            model->delta_int();\n        } else if (model->tN <= tNext + adevs_epsilon<TimeType>()) {'))
c('ext-pop', 'S03', ('            model->delta_ext(tNext - model->tL, model->inputs);\n            model->inputs.clear();', '            model->delta_ext(tNext - model->tL, model->inputs);\n            model->inputs.pop_front();'))
c('conf-noclear', 'S03', ('            model->delta_conf(model->inputs);\n            model->inputs.clear();', '            model->delta_conf(model->inputs);'))
c('ext-elapsed-inf', 'S01', ('model->delta_ext(tNext - model->tL, model->inputs);', 'model->delta_ext((model->tN == adevs_inf<TimeType>()) ? tNext : tNext - model->tL, model->inputs);'))
c('conf-splits', 'S01', ('            model->delta_conf(model->inputs);\n', '            model->delta_int();\n            model->delta_ext(adevs_zero<TimeType>(), model->inputs);\n'))
c('ctor-only-finite', 'S02', ('    for (auto atomic : graph->get_atomics()) {\n        schedule(atomic.get(), adevs_zero<TimeType>());\n    }', '    for (auto atomic : graph->get_atomics()) {\n        if (atomic->ta() < adevs_inf<TimeType>()) {\n            schedule(atomic.get(), adevs_zero<TimeType>());\n        }\n    }'))
c('ctor-eps', 'S02', ('    for (auto atomic : model->get_atomics()) {\n        schedule(atomic.get(), adevs_zero<TimeType>());', '    for (auto atomic : model->get_atomics()) {\n        schedule(atomic.get(), adevs_epsilon<TimeType>());'))
c('ctor-noprov', 'S06', ('    graph->add_atomic(model);\n    graph->set_provisional(true);', '    graph->set_provisional(false);\n    graph->add_atomic(model);'))
c('ctor-coupled-noprov', 'S06', ('    model->assign_to_graph(graph.get());\n    graph->set_provisional(true);\n', '    model->assign_to_graph(graph.get());\n'))
c('ctor-graph-first', 'S02', ('    : graph(model) {\n    graph->set_provisional(true);\n    for (auto atomic : model->get_atomics()) {\n        schedule(atomic.get(), adevs_zero<TimeType>());\n    }\n    tNext = sched.minPriority();', '    : graph(model) {\n    graph->set_provisional(true);\n    tNext = sched.minPriority();\n    for (auto atomic : model->get_atomics()) {\n        schedule(atomic.get(), adevs_zero<TimeType>());\n    }'))
c('sched-when-changed', 'S02', ('        // Adjust position in the schedule\n        schedule(model, t);', '        if (!(model->tN > t)) {\n            schedule(model, t);\n        }'))
c('sched-dt-le', 'S02', ('if (dt < adevs_zero<TimeType>()) {', 'if (dt < adevs_zero<TimeType>() && model->tN < tNext) {'))
c('sched-tl-late', 'S02', ('    model->tL = t;\n    TimeType dt = model->ta();\n    if (dt == adevs_inf<TimeType>()) {', '    TimeType dt = model->ta();\n    if (dt == adevs_inf<TimeType>()) {'), ('        sched.schedule(model, model->tN);\n    }\n}', '        sched.schedule(model, model->tN);\n    }\n    model->tL = t;\n}'))
c('sched-infonly', 'S02', ('        model->tN = adevs_inf<TimeType>();\n        sched.schedule(model, adevs_inf<TimeType>());\n    } else {', '        model->tN = adevs_inf<TimeType>();\n    } else {'))
c('exc-nomodel', 'S02', ('exception err("Negative time advance", model);', 'exception err("Negative time advance");'))
c('tnext-before-pending', 'S02', ('    active.clear();\n    // Effect any changes', '    active.clear();\n    tNext = sched.minPriority();\n    // Effect any changes'), ('    // Get the time of next event and return\n    tNext = sched.minPriority();\n', ''))
c('advance-return', 'S02', ('    tNext = sched.minPriority();\n    return t;', '    tNext = sched.minPriority();\n    return tNext;'))
c('minpri-min', 'S02', ('    tNext = sched.minPriority();\n    return t;', '    tNext = (sched.minPriority() < t) ? t : sched.minPriority();\n    return t;'))
c('due-flag', 'S03', ('    if (sched.minPriority() == tNext) {\n        std::list', '    if (sched.minPriority() == tNext && active.empty()) {\n        std::list'))
c('ext-keep', 'S03', ('        input.clear();\n    }\n    external_input.clear();', '        input.clear();\n    }\n    if (!active.empty()) {\n        external_input.clear();\n    }'))
c('ext-clear-late', 'S03', ('    external_input.clear();\n    // Route output from', '    // Route output from'), ('    active.clear();\n    // Effect', '    active.clear();\n    external_input.clear();\n    // Effect'))
c('undo-outputs', 'S03', ('        model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', '        model->inputs.clear();\n    }\n    active.clear();'))
c('undo-mealy-only', 'S03', ('    for (auto model : active) {\n        model->outputs.clear();\n        model->inputs.clear();\n    }', '    for (auto model : active) {\n        if (model->isMealyAtomic() == nullptr) {\n            model->inputs.clear();\n        }\n        model->outputs.clear();\n    }'))
c('noactive-clear', 'S03', ('        model->inputs.clear();\n    }\n    active.clear();', '        model->inputs.clear();\n    }'))
c('static-x', 'S04', ('        for (auto consumer : input) {\n            x.pin = consumer.first;\n            if (consumer.second->isMealyAtomic() != nullptr) {\n                // Mealy models outputs are', '        x.pin = input.empty() ? y.pin : input.front().first;\n        for (auto consumer : input) {\n            if (consumer.second->isMealyAtomic() != nullptr) {\n                // Mealy models outputs are'))
c('moore-pin-y', 'S04', ('                x.value = y.value;\n                graph->route(y.pin, input);\n                for (auto consumer : input) {\n                    x.pin = consumer.first;', '                x = y;\n                graph->route(y.pin, input);\n                for (auto consumer : input) {'))
c('mealy-pin-late', 'S04', ('            x.pin = consumer.first;\n            consumer.second->revisable_inputs', '            consumer.second->revisable_inputs'), ('            root->receivers.insert(consumer.second.get());', '            x.pin = consumer.first;\n            root->receivers.insert(consumer.second.get());'))
c('moore-active-new', 'S04', ('                        active.insert(consumer.second.get());\n                        consumer.second->inputs.push_back(x);', '                        if (active.insert(consumer.second.get()).second) {\n                            consumer.second->inputs.push_back(x);\n                        }'))
c('moore-self', 'S04', ('                        active.insert(consumer.second.get());\n                        consumer.second->inputs.push_back(x);', '                        if (consumer.second.get() != model) {\n                            active.insert(consumer.second.get());\n                            consumer.second->inputs.push_back(x);\n                        }'))
c('gather-order', 'S04', ('            model->inputs.push_back(model->revisable_inputs.front().second);\n            model->revisable_inputs.pop_front();', '            model->inputs.push_back(model->revisable_inputs.front().second);\n            model->revisable_inputs.pop_back();'))
c('gather-nonull', 'S04', ('            model->inputs.push_back(model->revisable_inputs.front().second);', '            if (model->revisable_inputs.front().first != nullptr || model->isMealyAtomic() == nullptr) {\n                model->inputs.push_back(model->revisable_inputs.front().second);\n            }'))
c('route-input-once', 'S04', ('                input.clear();\n            }\n        }\n    }\n    // Calculate', '            }\n            input.clear();\n        }\n    }\n    // Calculate'))
c('listener-moore-only', 'S05', ('        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }', '        for (auto listener : listeners) {\n            if (model->isMealyAtomic() == nullptr) {\n                listener->stateChange(*model, tNext);\n            }\n        }'))
c('listener-state-t', 'S05', ('listener->stateChange(*model, tNext);', 'listener->stateChange(*model, t);'))
c('listener-state-late', 'S05', ('        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n        // Adjust position in the schedule\n        schedule(model, t);\n    }\n    active.clear();', '        // Adjust position in the schedule\n        schedule(model, t);\n    }\n    for (auto model : active) {\n        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n    }\n    active.clear();'))
c('listener-input-x', 'S05', ('    PinValue<ValueType> x;\n    TimeType t = tNext', '    PinValue<ValueType> last;\n    TimeType t = tNext'), ('        for (auto x : model->inputs) {\n            for (auto listener : listeners) {\n                listener->inputEvent(*model, x, tNext);\n            }\n        }', '        for (auto x : model->inputs) {\n            for (auto listener : listeners) {\n                listener->inputEvent(*model, last, tNext);\n            }\n            last = x;\n        }'))
c('listener-once', 'S05', ('        listeners.push_back(listener);', '        if (listeners.size() < 8) {\n            listeners.push_back(listener);\n        }'))
c('listener-out-x', 'S05', ('                for (auto listener : listeners) {\n                    listener->outputEvent(*model, y, tNext);\n                }\n                x.value = y.value;', '                x.value = y.value;\n                for (auto listener : listeners) {\n                    listener->outputEvent(*model, x, tNext);\n                }'))
c('listener-mealy-x', 'S05', ('        // Done with the output\n        model->outputs.clear();', '        if (!model->isMealyAtomic()) {\n            model->outputs.clear();\n        }'))
c('ref-op', 'S06', ('        auto op = pending.front();\n        pending.pop_front();', '        auto &op = pending.front();\n        pending.pop_front();'))
c('prov-first', 'S06', ('    graph->set_provisional(true);\n    // Get the time of next event', '    // Get the time of next event'))
c('op-add-after', 'S06', ('                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {\n                    schedule(op.model.get(), t);\n                }\n                graph->add_atomic(op.model);', '                graph->add_atomic(op.model);\n                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {\n                    schedule(op.model.get(), t);\n                }'))
c('op-add-tnext', 'S06', ('                    schedule(op.model.get(), t);\n                }', '                    schedule(op.model.get(), tNext);\n                }'))
c('op-rm-check-before', 'S06', ('                graph->remove_atomic(op.model);\n                // The model is done when its last instance leaves\n                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {', '                // The model is done when its last instance leaves\n                if (graph->get_atomics().find(op.model) != graph->get_atomics().end()) {\n                    graph->remove_atomic(op.model);\n                }\n                if (graph->get_atomics().find(op.model) == graph->get_atomics().end() && op.model->tN == tNext) {'))
c('op-rm-tn', 'S06', ('                    sched.schedule(op.model.get(), adevs_inf<TimeType>());', '                    op.model->tN = adevs_inf<TimeType>();'))
c('op-before-trans', 'S06', ('    active.clear();\n    // Effect any changes in the model structure\n    graph->set_provisional(false);', '    // Effect any changes in the model structure\n    graph->set_provisional(false);\n    active.clear();'))
c('op-size-fixed', 'S06', ('    while (!pending.empty()) {\n', '    for (size_t i = 0; i < pending.size(); i++) {\n'))
c('op-back', 'S06', ('        auto op = pending.front();\n        pending.pop_front();\n        switch', '        auto op = pending.back();\n        pending.pop_back();\n        switch'))
c('op-prov-kept', 'S06', ('    graph->set_provisional(false);\n    std::list<typename', '    std::list<typename'))
c('mealy-orphan-noerase', 'S07', ('    active.insert(root);\n    orphaned.erase(root);\n', '    active.insert(root);\n'), ('        calculate_mealy_output(path,model);\n    }\n    // Gather', '        orphaned.erase(model);\n        calculate_mealy_output(path,model);\n    }\n    // Gather'))
c('mealy-cycle-active', 'S07', ('if (path.find(consumer.second->isMealyAtomic()) != path.end()) {', 'if (consumer.second->isMealyAtomic() == root) {'))
c('mealy-cycle-noid', 'S07', ('throw adevs::exception("Cycles of Mealy models are illegal", root);', 'throw adevs::exception("Cycles of Mealy models are illegal");'))
c('mealy-retract-noorph', 'S07', ('            orphaned.insert((*iter)->isMealyAtomic());\n            retract_mealy_output', '            retract_mealy_output'))
c('mealy-return-early-active', 'S07', ('            // No input and not imminent so nothing to do\n            return;', '            // No input and not imminent so nothing to do\n            active.erase(root);\n            return;'))
c('mealy-conf-as-ext', 'S07', ('    } else if (root->tN == tNext) {\n        // Confluent event\n', '    } else if (root->tN < tNext) {\n        // Confluent event\n'))
c('mealy-noclear-in', 'S07', ('    // Clear the input list\n    root->inputs.clear();\n    // Descend', '    // Descend'))
c('mealy-path-left', 'S07', ('    path.erase(root);\n}', '}'))
c('mealy-noactive', 'S04', ('            } else {\n                active.insert(consumer.second.get());\n            }\n            // There are no cycles', '            }\n            // There are no cycles'))
c('mealy-noreceivers', 'S07', ('            root->receivers.insert(consumer.second.get());', '            if (consumer.second->isMealyAtomic() != nullptr) {\n                root->receivers.insert(consumer.second.get());\n            }'))
c('mealy-elapsed-now', 'S07', ('root->external_output_func(tNext - root->tL, root->inputs', 'root->external_output_func(tNext, root->inputs'))
c('mealy-empty-list', 'S07', ('        root->inputs.push_back(revisable_input.second);\n    }\n', '        root->inputs.push_front(revisable_input.second);\n    }\n'))
c('mealy-first-only-once', 'S07', ('    for (auto model: activated) {\n        calculate_mealy_output(path,model);\n    }', '    for (auto model: activated) {\n        if (orphaned.find(model) != orphaned.end()) {\n            calculate_mealy_output(path,model);\n        }\n    }'))
c('moore-mealy-not-orphan', 'S07', ('                orphaned.insert(model->isMealyAtomic());\n                continue;', '                active.insert(model);\n                continue;'))
c('exc-who', 'S02', (EX, 'who(', 'who_(') if False else ('exception err("Negative time advance", model);\n            throw err;', 'throw std::invalid_argument("Negative time advance");'))

SRC = open('/repo/' + SI).read()
def vec(guard):
    eds = [('std::set<Atomic<ValueType, TimeType>*> active;', 'std::vector<Atomic<ValueType, TimeType>*> active;\n    void activate(Atomic<ValueType, TimeType>* m) { %sactive.push_back(m); }' % guard), ('#include <set>', '#include <algorithm>\n#include <set>\n#include <vector>')]
    for a, n in (('active.insert(root);', 'activate(root);'), ('active.insert(model);', 'activate(model);')) + (('active.insert(consumer.second.get());', 'activate(consumer.second.get());'),) * SRC.count('active.insert(consumer.second.get());'):
        eds.append((a, n))
    return eds
c('vec-unguarded', 'S01', *vec(''))
