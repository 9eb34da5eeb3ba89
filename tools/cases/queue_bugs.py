S = 'include/adevs/sched.h'
M = 'include/adevs/models.h'
CASES = [
 ('up-strict', 'Q01', [(S, 'while (priority <= heap[index / 2].priority)', 'while (priority < heap[index / 2].priority)')]),
 ('up-noqi', 'Q02', [(S, 'heap[index] = heap[index / 2];\n        heap[index].item->q_index = index;', 'heap[index] = heap[index / 2];')]),
 ('up-wrongqi', 'Q02', [(S, 'heap[index] = heap[index / 2];\n        heap[index].item->q_index = index;', 'heap[index] = heap[index / 2];\n        heap[index].item->q_index = index / 2;')]),
 ('down-sibling', 'Q01', [(S, 'heap[child + 1].priority < heap[child].priority', 'heap[child].priority < heap[child + 1].priority')]),
 ('down-nosibling', 'Q01', [(S, 'if (child != size && heap[child + 1].priority < heap[child].priority) {', 'if (false) {')]),
 ('down-bound', 'Q02', [(S, 'child != size && ', '')]),
 ('down-bound2', 'Q02', [(S, 'child != size && ', 'child <= size && ')]),
 ('down-lt-size', 'Q01', [(S, 'index * 2 <= size', 'index * 2 < size')]),
 ('down-noqi', 'Q02', [(S, 'heap[index].item->q_index = index;\n        } else', '} else')]),
 ('down-stop', 'Q01', [(S, 'if (heap[child].priority < priority) {', 'if (heap[index].priority < priority) {')]),
 ('rm-noqi', 'Q02', [(S, 'heap[1].item->q_index = 0;', '')]),
 ('rm-noinf', 'Q01', [(S, 'heap[1].priority = adevs_inf<TimeType>();', '')]),
 ('rm-wrong-last', 'Q01', [(S, 'percolate_down(1, heap[size + 1].priority)', 'percolate_down(1, heap[size].priority)')]),
 ('rm-place-qi', 'Q02', [(S, 'heap[i].item->q_index = i;', '')]),
 ('rm-nosize', 'Q01', [(S, '    size--;\n', '')]),
 ('sch-up-down', 'Q01', [(S, 'else if (priority < heap[model->q_index].priority) {', 'else if (heap[model->q_index].priority < priority) {'), (S, 'else if (heap[model->q_index].priority < priority) {\n            model->q_index = percolate_down', 'else if (priority < heap[model->q_index].priority) {\n            model->q_index = percolate_down')]),
 ('sch-noprio', 'Q01', [(S, 'heap[model->q_index].priority = priority;\n        heap[model->q_index].item = model;\n    }\n    //', 'heap[model->q_index].item = model;\n    }\n    //')]),
 ('sch-noenlarge', 'Q02', [(S, 'if (size == capacity) {\n            enlarge();\n        }', '')]),
 ('sch-late', 'Q02', [(S, 'if (size == capacity) {', 'if (size > capacity) {')]),
 ('enl-copy-size', 'Q02', [(S, 'i < capacity; i++', 'i < size - 1; i++')]),
 ('enl-from1', 'Q02', [(S, 'for (unsigned int i = 0; i < capacity', 'for (unsigned int i = 1; i < capacity')]),
 ('enl-copy-over', 'Q02', [(S, 'i < capacity; i++', 'i < capacity * 2; i++')]),
 ('enl-nodelete', 'Q02', [(S, '    delete[] heap;\n    heap = rheap;', '    heap = rheap;')]),
 ('enl-nocap', '', [(S, '    capacity *= 2;\n', '    capacity += 2;\n')]),
 ('enl-cap4', 'Q02', [(S, '    capacity *= 2;\n', '    capacity *= 4;\n')]),
 ('enl-capsame', 'Q02', [(S, '    capacity *= 2;\n', '')]),
 ('enl-item-only', 'Q02', [(S, 'rheap[i] = heap[i];', 'rheap[i].item = heap[i].item;')]),
 ('im-lt', 'Q01', [(S, 'heap[1].priority < heap[root].priority', 'heap[1].priority <= heap[root].priority')]),
 ('im-noright', 'Q01', [(S, 'visitImminent(root * 2 + 1);', '')]),
 ('im-size', 'Q01', [(S, 'root > size ||', 'root >= size ||')]),
 ('im-oob', 'Q02', [(S, 'if (root > size || heap[1].priority < heap[root].priority)', 'if (heap[1].priority < heap[root].priority || root > size)')]),
 ('im-noclear', 'Q01', [(S, 'activated.clear();\n        visitImminent(1);', 'visitImminent(1);')]),
 ('im-stop', 'Q01', [(S, '    visitImminent(root * 2);\n', '    if (root * 2 < size) visitImminent(root * 2);\n')]),
 ('im-twice', 'Q01', [(S, 'visitImminent(root * 2 + 1);', 'visitImminent(root * 2 + 1);\n    visitImminent(root * 2);')]),
 ('ctor-cap', 'Q02', [(S, 'heap(new heap_element[this->capacity])', 'heap(new heap_element[capacity])')]),
 ('ctor-sent', 'Q02', [(S, 'heap[0].priority = adevs_sentinel<TimeType>();', '')]),
 ('ctor-min', 'Q02', [(S, 'capacity < 2 ? 2 : capacity', 'capacity < 1 ? 1 : capacity')]),
 ('elem-prio', 'Q01', [(S, 'priority(adevs_inf<TimeType>()) {}', 'priority(adevs_zero<TimeType>()) {}')]),
 ('model-qi', 'Q02', [(M, 'q_index(0)', 'q_index(1)')]),
 ('dtor', 'Q02', [(S, '~Schedule() { delete[] heap; }', '~Schedule() {}')]),
 ('minprio-zero', 'Q01', [(S, 'return heap[1].priority;', 'return heap[0].priority;')]),
 ('sch-inf-skip', 'Q01', [(S, 'if (!(priority < adevs_inf<TimeType>())) {', 'if (size > 1 && !(priority < adevs_inf<TimeType>())) {')]),
 ('sch-ins-inf', 'Q01', [(S, '    else if (priority < adevs_inf<TimeType>()) {', '    else {')]),
 ('rm-minprio', 'Q01', [(S, 'percolate_up(model->q_index, min_priority);', 'percolate_up(model->q_index, heap[model->q_index].priority);')]),
]
