S = 'include/adevs/simulator.h'
CASES = [
 ('s01-conf-clear-first', 'S01', [(S, 'model->delta_conf(model->inputs);\n            model->inputs.clear();', 'model->inputs.clear();\n            model->delta_conf(model->inputs);')]),
 ('s01-elapsed-t', 'S01', [(S, 'model->delta_ext(tNext - model->tL', 'model->delta_ext(t - model->tL')]),
 ('s01-conf-ext-swap', 'S01', [(S, '} else if (model->tN == tNext) {\n            // Confluent', '} else if (!(model->tN == tNext)) {\n            // Confluent')]),
 ('s02-inf', 'S02', [(S, 'model->tN = adevs_inf<TimeType>();\n        sched.schedule', 'sched.schedule')]),
 ('s02-neg-after', 'S02', [(S, 'if (dt < adevs_zero<TimeType>()) {', 'if (dt < adevs_sentinel<TimeType>()) {')]),
 ('s02-tnext-early', 'S02', [(S, 'active.clear();\n    // Effect any', 'active.clear();\n    tNext = sched.minPriority();\n    // Effect any'), (S, '    tNext = sched.minPriority();\n    return t;', '    return t;')]),
 ('s03-noclear-inputs', 'S03', [(S, 'model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', 'model->outputs.clear();\n    }\n    active.clear();')]),
 ('s03-noclear-ext', 'S03', [(S, '    external_input.clear();\n    // Route output', '    // Route output')]),
 ('s03-clear-after', 'S03', [(S, '    // Undo prior output calculation\n    for (auto model : active) {\n        model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', ''), (S, '    external_input.clear();\n    // Route output', '    external_input.clear();\n    for (auto model : active) {\n        model->outputs.clear();\n        model->inputs.clear();\n    }\n    // Route output')]),
 ('s03-due-le', '', [(S, 'if (sched.minPriority() == tNext)', 'if (sched.minPriority() <= tNext)')]),
 ('s03-always', 'S03', [(S, 'if (sched.minPriority() == tNext)', 'if (sched.minPriority() < adevs_inf<TimeType>())')]),
 ('s03-mealyskip', 'S03', [(S, 'orphaned.insert(model->isMealyAtomic());\n                continue;', 'orphaned.insert(model->isMealyAtomic());')]),
 ('s03-twice', 'S03', [(S, 'model->output_func(model->outputs);\n            for', 'model->output_func(model->outputs);\n            if (model->outputs.empty()) model->output_func(model->outputs);\n            for')]),
 ('s03-receivers', 'S03', [(S, '            model->isMealyAtomic()->receivers.clear();\n', '')]),
 ('s03-outputs-left', 'S03', [(S, '        // Done with the output\n        model->outputs.clear();', '')]),
 ('s03-ta', 'S03', [(S, '            active.insert(model);\n            model->output_func', '            active.insert(model);\n            model->tL = tNext;\n            model->output_func')]),
 ('s04-pin', 'S04', [(S, '            x.pin = consumer.first;\n            if (consumer.second->isMealy', '            x.pin = y.pin;\n            if (consumer.second->isMealy')]),
 ('s04-stale-value', 'S04', [(S, '                x.value = y.value;\n                graph->route', '                graph->route')]),
 ('s04-noclear', 'S04', [(S, '        input.clear();\n    }\n    external_input', '    }\n    external_input')]),
 ('s04-noactive', 'S04', [(S, '                active.insert(consumer.second.get());\n                consumer.second->inputs.push_back(x);', '                consumer.second->inputs.push_back(x);')]),
 ('s04-mealy-inputs', 'S04', [(S, 'consumer.second->revisable_inputs.push_back(\n                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(\n                        nullptr,x));', 'consumer.second->inputs.push_back(x);')]),
 ('s04-wrong-producer', 'S04', [(S, '(\n                    root,x));', '(\n                    nullptr,x));')]),
 ('s04-self', 'S04', [(S, '                    } else {\n                        active.insert(consumer.second.get());', '                    } else if (consumer.second.get() != model) {\n                        active.insert(consumer.second.get());')]),
 ('s04-first-only', 'S04', [(S, '                        consumer.second->inputs.push_back(x);\n                    }\n                }', '                        consumer.second->inputs.push_back(x);\n                        break;\n                    }\n                }')]),
 ('s04-gather-if', 'S04', [(S, '        while (!model->revisable_inputs.empty()) {', '        if (!model->revisable_inputs.empty()) {')]),
 ('s04-gather-mealy-only', 'S04', [(S, '        while (!model->revisable_inputs.empty()) {', '        while (model->isMealyAtomic() && !model->revisable_inputs.empty()) {')]),
 ('s05-break', 'S05', [(S, 'listener->stateChange(*model, tNext);', 'listener->stateChange(*model, tNext); break;')]),
 ('s05-time', 'S05', [(S, 'listener->stateChange(*model, tNext);', 'listener->stateChange(*model, t);')]),
 ('s05-order', 'S05', [(S, '        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n', ''), (S, '        // Internal event if no input', '        for (auto listener : listeners) {\n            listener->stateChange(*model, tNext);\n        }\n        // Internal event if no input')]),
 ('s05-mealyearly', 'S05', [(S, '        x.value = y.value;\n        graph->route(y.pin, input);\n        for (auto consumer : input) {\n            if', '        for (auto listener : listeners) { listener->outputEvent(*root, y, tNext); }\n        x.value = y.value;\n        graph->route(y.pin, input);\n        for (auto consumer : input) {\n            if')]),
 ('s05-mealymissing', 'S05', [(S, '        if (model->isMealyAtomic()) {\n            for (auto y', '        if (model->isMealyAtomic() && model->tN == tNext) {\n            for (auto y')]),
 ('s05-onlyif', 'S05', [(S, '        for (auto listener : listeners) {\n            listener->stateChange', '        if (!model->outputs.empty()) for (auto listener : listeners) {\n            listener->stateChange')]),
 ('s05-front', 'S05', [(S, 'listeners.push_back(listener);', 'if (listeners.empty()) listeners.push_back(listener);')]),
 ('s05-double', 'S05', [(S, '        if (model->isMealyAtomic()) {\n            for (auto y', '        {\n            for (auto y')]),
 ('s06-swap-pins', 'S06', [(S, 'graph->connect(op.pin[0], op.pin[1]);', 'graph->connect(op.pin[1], op.pin[0]);')]),
 ('s06-fallthrough', 'S06', [(S, '                graph->disconnect(op.pin[0], op.pin[1]);\n                break;', '                graph->disconnect(op.pin[0], op.pin[1]);')]),
 ('s06-lifo', 'S06', [(S, 'auto op = pending.front();\n        pending.pop_front();', 'auto op = pending.back();\n        pending.pop_back();')]),
 ('s06-addcheck', 'S06', [(S, 'if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {\n                    schedule(op.model', '{\n                    schedule(op.model')]),
 ('s06-one', 'S06', [(S, 'while (!pending.empty()) {', 'if (!pending.empty()) {')]),
 ('s06-early', 'S06', [(S, '    graph->set_provisional(false);\n', ''), (S, '    TimeType t = tNext + adevs_epsilon<TimeType>();', '    TimeType t = tNext + adevs_epsilon<TimeType>();\n    graph->set_provisional(false);')]),
 ('s06-prov', 'S06', [(S, '    graph->set_provisional(true);\n    // Get', '    // Get')]),
 ('s06-noun', 'S06', [(S, 'sched.schedule(op.model.get(), adevs_inf<TimeType>());\n', '')]),
 ('s06-time', 'S06', [(S, 'schedule(op.model.get(), t);', 'schedule(op.model.get(), tNext);')]),
 ('s07-noretract', 'S07', [(S, '    retract_mealy_output(root);\n    // Clear', '    // Clear')]),
 ('s07-order', 'S07', [(S, '} else if (root->tN == tNext) {\n        // Confluent', '} else if (tNext < root->tN) {\n        // Confluent')]),
 ('s07-path', 'S07', [(S, '    path.erase(root);\n', '')]),
 ('s07-nopath', 'S07', [(S, '    path.insert(root);\n', '')]),
 ('s07-nochain', '', [(S, '            retract_mealy_output((*iter)->isMealyAtomic());\n', '')]),
 ('s07-noorph', 'S07', [(S, '            orphaned.insert((*iter)->isMealyAtomic());\n            retract', '            retract')]),
 ('s07-onlyfirst', 'S07', [(S, 'iter2 = (*iter)->revisable_inputs.erase(iter2);\n            } else', 'iter2 = (*iter)->revisable_inputs.erase(iter2); break;\n            } else')]),
 ('s07-inputsleft', 'S07', [(S, '    // Clear the input list\n    root->inputs.clear();\n', '')]),
 ('s07-elapsed', 'S07', [(S, 'external_output_func(tNext - root->tL', 'external_output_func(root->tN - tNext')]),
 ('s07-outputsleft', 'S07', [(S, '    // Clear the output list\n    root->outputs.clear();\n', '')]),
 ('s07-before', 'S07', [(S, '    // Route output from the Moore type imm', '    while (!orphaned.empty()) {\n        auto model = *(orphaned.begin());\n        calculate_mealy_output(path,model);\n    }\n    // Route output from the Moore type imm')]),
]
