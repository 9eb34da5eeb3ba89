"""Planted changes, third series (see tools/seed.py)."""
import core
import sim
import solvers
PRELUDE = sim.PRELUDE
SOLP = solvers.PRELUDE
QPRE = core.QPRE
SEEDS = [
    ('hybrid-elapsed-of-last-step', 'H01',
     {'include/adevs/solvers/hybrid.h': [('        e_accum += ta();', '        e_accum = ta();')]},
     'an input after two or more integration steps without an event',
     'the elapsed time given to the external event covers only the last step',
     '''
int main() {
    auto *s = new Sys({0.0}, drift);
    adevs::Hybrid<int> h(s, new adevs::rk_45<int>(s, 1e-6, 0.5), new adevs::null_event_locator<int>());
    std::list<PV> x;
    double t = 0.0;
    for (int i = 0; i < 4; i++) { t += h.ta(); h.delta_int(); }
    double e = 0.5 * h.ta();
    h.delta_ext(e, x);
    CHECK(s->es.size() == 1 && std::fabs(s->es[0] - (t + e)) < 1e-9);
}
''', {'pre': 'SOLP'}),
    ('queue-root-keeps-old-position', 'Q02',
     {'include/adevs/sched.h': [('        heap[i].item->q_index = i;\n        heap[size + 1].item = nullptr;',
        '        if (i > 1) {\n            heap[i].item->q_index = i;\n        }\n        heap[size + 1].item = nullptr;')]},
     'a queue of two of which the first is removed, and the one that is left is scheduled anew',
     'the model that is left is looked up at its old place, so its new time is lost',
     '''
int main() {
    Q q;
    M a, b, c;
    q.schedule(&a, 1.0);
    q.schedule(&b, 2.0);
    q.schedule(&a, INF);
    CHECK(q.minPriority() == 2.0);
    q.schedule(&b, 5.0);
    CHECK(q.minPriority() == 5.0);
    q.schedule(&c, 3.0);
    CHECK(q.minPriority() == 3.0);
    q.schedule(&b, 1.0);
    CHECK(q.minPriority() == 1.0);
}
''', {'pre': 'QPRE'}),
    ('disconnect-only-target-at-once', 'G01',
     {'include/adevs/graph.h': [('            if ((*iter).second == 0) {\n                pin_list.erase(iter);',
        '            if ((*iter).second == 0 || pin_list.size() == 1) {\n                pin_list.erase(iter);')]},
     'a connection made twice and removed once, from a pin with no other connection',
     'the connection is gone although one instance of it is left',
     '''
int main() {
    G g;
    adevs::pin_t p, q;
    auto a = std::make_shared<Node>(std::vector<double>{1});
    g.add_atomic(a);
    g.connect(q, a);
    g.connect(p, q);
    g.connect(p, q);
    g.disconnect(p, q);
    std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> r;
    g.route(p, r);
    CHECK(r.size() == 1);
    g.disconnect(p, q);
    r.clear();
    g.route(p, r);
    CHECK(r.empty());
}
'''),
    ('pending-disconnect-cancels-connect', 'G03',
     {'include/adevs/graph.h': [('    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n    pending.push_back(op);',
        '    op.op = DISCONNECT_PIN_FROM_ATOMIC;\n    op.pin[0] = pin;\n    op.model = model;\n    if (!pending.empty() && pending.back().op == CONNECT_PIN_TO_ATOMIC && pending.back().model == model) {\n        pending.pop_back();\n        return;\n    }\n    pending.push_back(op);')]},
     'a model that is connected to one pin and then disconnected from another within one event',
     'both requests vanish',
     '''
int main() {
    G g;
    adevs::pin_t p, q;
    auto a = std::make_shared<Node>(std::vector<double>{1});
    g.add_atomic(a);
    g.connect(q, a);
    g.set_provisional(true);
    g.connect(p, a);
    g.disconnect(q, a);
    CHECK(g.get_pending().size() == 2);
    CHECK(g.get_pending().front().op == G::CONNECT_PIN_TO_ATOMIC && g.get_pending().front().pin[0] == p);
    CHECK(g.get_pending().back().op == G::DISCONNECT_PIN_FROM_ATOMIC && g.get_pending().back().pin[0] == q);
}
'''),
]
