S = 'include/adevs/sched.h'
RULES = ['Q01', 'Q02']
CASES = [
 ('up-parent-var', '', [(S, '''    while (priority <= heap[index / 2].priority) {
        heap[index] = heap[index / 2];
        heap[index].item->q_index = index;
        index /= 2;
    }''', '''    for (;;) {
        unsigned int const parent = index / 2;
        if (heap[parent].priority < priority) {
            break;
        }
        heap[index] = heap[parent];
        heap[index].item->q_index = index;
        index = parent;
    }''')]),
 ('up-shift', '', [(S, '''    while (priority <= heap[index / 2].priority) {
        heap[index] = heap[index / 2];
        heap[index].item->q_index = index;
        index /= 2;
    }''', '''    while (index > 1 && priority <= heap[index >> 1].priority) {
        heap[index].item = heap[index >> 1].item;
        heap[index].priority = heap[index >> 1].priority;
        heap[index].item->q_index = index;
        index >>= 1;
    }''')]),
 ('up-carried', '', [(S, '''    while (priority <= heap[index / 2].priority) {
        heap[index] = heap[index / 2];
        heap[index].item->q_index = index;
        index /= 2;
    }''', '''    unsigned int parent = index / 2;
    while (!(heap[parent].priority < priority)) {
        heap[index] = heap[parent];
        heap[index].item->q_index = index;
        index = parent;
        parent = index / 2;
    }''')]),
 ('down-while', '', [(S, '''    for (; index * 2 <= size; index = child) {
        child = index * 2;''', '''    while (index * 2 <= size) {
        child = index * 2;'''), (S, '''        } else {
            break;
        }
    }
    return index;''', '''        } else {
            return index;
        }
        index = child;
    }
    return index;''')]),
 ('down-negated', '', [(S, '''        if (heap[child].priority < priority) {
            // If the child is smaller than the target, swap the elements
''', '''        if (!(heap[child].priority < priority)) break;
        {
''')] if False else [(S, 'child != size && heap[child + 1].priority < heap[child].priority', 'child < size && !(heap[child].priority <= heap[child + 1].priority)')]),
 ('down-ternary', '', [(S, '''        if (child != size && heap[child + 1].priority < heap[child].priority) {
            child++;
        }''', '''        child += (child + 1 <= size && heap[child + 1].priority < heap[child].priority) ? 1 : 0;''')]),
 ('down-le', '', [(S, 'child != size && heap[child + 1].priority < heap[child].priority', 'child != size && heap[child + 1].priority <= heap[child].priority')]),
 ('down-ref', '', [(S, '''            heap[index] = heap[child];
            heap[index].item->q_index = index;''', '''            heap_element &hole = heap[index];
            hole = heap[child];
            hole.item->q_index = index;''')]),
 ('place-helper', '', [(S, '''        heap[model->q_index].priority = priority;
        heap[model->q_index].item = model;
    }
    // ''', '''        place(model->q_index, model, priority);
    }
    // '''), (S, '''    void enlarge();''', '''    void place(unsigned int i, Atomic<ValueType, TimeType>* m, TimeType p) {
        heap[i].item = m;
        heap[i].priority = p;
        m->q_index = i;
    }
    void enlarge();''')]),
 ('rm-local', '', [(S, '''        unsigned int i = percolate_down(1, heap[size + 1].priority);
        heap[i] = heap[size + 1];
        heap[i].item->q_index = i;
        heap[size + 1].item = nullptr;''', '''        heap_element const last = heap[size + 1];
        heap[size + 1].item = nullptr;
        unsigned int const i = percolate_down(1, last.priority);
        heap[i] = last;
        last.item->q_index = i;''')]),
 ('rm-nested', '', [(S, '''    if (size == 0) {
        return;
    }
    size--;''', '''    if (empty()) {
        return;
    }
    size -= 1;''')]),
 ('enl-std-copy', '', [(S, '''    for (unsigned int i = 0; i < capacity; i++) {
        rheap[i] = heap[i];
    }''', '''    unsigned int i = 0;
    while (i != capacity) {
        rheap[i] = heap[i];
        ++i;
    }''')]),
 ('enl-order', '', [(S, '''    heap_element* rheap = new heap_element[capacity * 2];''', '''    unsigned int const larger = 2 * capacity;
    heap_element* rheap = new heap_element[larger];'''), (S, '''    capacity *= 2;
''', ''), (S, '''    heap = rheap;
''', '''    heap = rheap;
    capacity = larger;
''')]),
 ('sch-order', '', [(S, '''        size++;
        if (size == capacity) {
            enlarge();
        }''', '''        if (size + 1 >= capacity) {
            enlarge();
        }
        ++size;''')]),
 ('im-nested', '', [(S, '''    if (root > size || heap[1].priority < heap[root].priority) {
        return;
    }''', '''    if (root > size) {
        return;
    }
    bool const due = !(heap[1].priority < heap[root].priority);
    if (!due) {
        return;
    }''')]),
 ('im-for', '', [(S, '''    visitImminent(root * 2);
''', '''    unsigned int const left = 2 * root;
    visitImminent(left);
'''), (S, 'visitImminent(root * 2 + 1);', 'visitImminent(left + 1);')]),
 ('im-loop', '', [(S, '''    // Look for more imminent models in the left sub-tree
    visitImminent(root * 2);
    // Look in the right sub-tree
    visitImminent(root * 2 + 1);''', '''    for (unsigned int child = root * 2; child <= root * 2 + 1; child++) {
        visitImminent(child);
    }''')]),
 ('sch-flip', '', [(S, 'if (model->q_index != 0) {', 'bool const queued = model->q_index != 0;\n    if (queued) {')]),
 ('sch-inf-eq', '', [(S, 'if (!(priority < adevs_inf<TimeType>())) {', 'if (priority >= adevs_inf<TimeType>()) {')]),
 ('im-explicit', '', [(S, '    visitImminent(root * 2);\n', '    if (root * 2 <= size) visitImminent(root * 2);\n')]),
]
