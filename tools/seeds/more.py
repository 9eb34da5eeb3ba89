"""More planted changes (see tools/seed.py)."""
import core
import sim
import solvers
SIMP = PRELUDE = sim.PRELUDE
SOLP = solvers.PRELUDE
QPRE = core.QPRE
SDPRE = core.SDPRE
CVP = solvers.CVP
SEEDS = [
    ('queue-fills-hole-downwards', 'Q01',
     {'include/adevs/sched.h': [('''        if (!(priority < adevs_inf<TimeType>())) {
''',
        '''        if (!(priority < adevs_inf<TimeType>())) {
            unsigned int hole = model->q_index;
            // Close a hole inside of the heap with the last model
            if (hole != 1 && hole != size) {
                size--;
                model->q_index = 0;
                hole = percolate_down(hole, heap[size + 1].priority);
                heap[hole] = heap[size + 1];
                heap[hole].item->q_index = hole;
                heap[size + 1].item = nullptr;
                return;
            }
''')]},
     'a model removed from one branch of the queue while the last entry, in the other branch, is due before the parent of the hole',
     'the entry that fills the hole stays below a later one, so a later minimum is wrong',
     '''
int main() {
    std::mt19937 r(11);
    for (int rep = 0; rep < 2000; rep++) {
        Q q;
        int n = 7 + rep % 20;
        std::vector<std::unique_ptr<M>> m;
        std::vector<double> at;
        for (int i = 0; i < n; i++) { m.emplace_back(new M); at.push_back(r() % 1000); q.schedule(m[i].get(), at[i]); }
        int gone = r() % n;
        q.schedule(m[gone].get(), INF); at[gone] = INF;
        for (int k = 0; k < n - 1; k++) {
            double least = INF;
            for (double t : at) if (t < least) least = t;
            CHECK(q.minPriority() == least);
            auto *x = q.getMinimum();
            for (int i = 0; i < n; i++) if (m[i].get() == x) { CHECK(at[i] == least); at[i] = INF; }
            q.removeMinimum();
        }
        CHECK(q.empty());
    }
}
''', {'pre': 'QPRE'}),
    ('pending-add-once', 'G03',
     {'include/adevs/graph.h': [('''    graph_op op;
    op.op = ADD_ATOMIC;
    op.model = model;
''',
        '''    // The model is already on its way into the graph
    if (!pending.empty() && pending.back().op == ADD_ATOMIC && pending.back().model == model) {
        return;
    }
    graph_op op;
    op.op = ADD_ATOMIC;
    op.model = model;
''')]},
     'one model added twice in a row while the simulation runs, and taken out once later',
     'the second request is not queued, so the model leaves the graph although one instance should remain',
     '''
int main() {
    G g;
    auto a = std::make_shared<Node>(std::vector<double>{INF});
    g.set_provisional(true);
    g.add_atomic(a); g.add_atomic(a);
    CHECK(g.get_pending().size() == 2);
    g.add_atomic(a);
    CHECK(g.get_pending().size() == 3);
    CHECK(g.get_atomics().empty());
}
'''),
    ('withdrawn-components-keep-couplings', 'G04',
     {'include/adevs/models.h': [('''    for (auto coupling : pin_to_atomic) {
        g->disconnect(coupling.first, coupling.second);
    }''',
        '''    for (auto coupling : pin_to_atomic) {
        // A coupling to one of our own components left along with it
        if (atomic_components.find(coupling.second) != atomic_components.end()) {
            continue;
        }
        g->disconnect(coupling.first, coupling.second);
    }''')]},
     'a sub-model that leaves the simulation while one of its components stays as part of another coupled model',
     'the coupling of the sub-model to that component stays in the simulated graph',
     '''
int main() {
    auto outer = std::make_shared<C>(), inner = std::make_shared<C>();
    auto a = std::make_shared<Node>(std::vector<double>{INF});
    auto b = std::make_shared<Node>(std::vector<double>{1, 1, 1, INF});
    outer->add_atomic(a);
    outer->add_atomic(b);
    inner->add_atomic(a);
    inner->create_coupling(b->out, a);
    outer->add_coupled_model(inner);
    Sim s(outer);
    s.execNextEvent();
    CHECK(a->seen.size() == 1);
    outer->remove_coupled_model(inner);
    s.execNextEvent();
    size_t n = a->seen.size();
    s.execNextEvent();
    CHECK(a->seen.size() == n);
}
'''),
    ('negative-advance-too-small', 'S02',
     {'include/adevs/simulator.h': [('        if (dt < adevs_zero<TimeType>()) {',
        '        if (model->tN < t) {')]},
     'a negative time advance that is too small to change the present time',
     'the model is scheduled instead of being reported',
     '''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{1, -1e-20, INF});
    Sim s(a);
    bool thrown = false;
    try { s.execNextEvent(); } catch (adevs::exception &e) { thrown = true; }
    CHECK(thrown);
}
'''),
    ('injected-input-survives-recompute', 'S03',
     {'include/adevs/simulator.h': [('''        input.clear();
    }
    external_input.clear();
''',
        '''        input.clear();
    }
'''),
       ('''    active.clear();
    // Effect any changes''',
        '''    active.clear();
    external_input.clear();
    // Effect any changes''')]},
     'output that is computed again after an input was injected',
     'the input of the superseded computation is used by the second one as well',
     '''
int main() {
    auto b = std::make_shared<Node>(std::vector<double>{5, INF});
    auto g = std::make_shared<G>();
    g->add_atomic(b);
    g->connect(b->in, b);
    Sim s(g);
    PV x(b->in, 3), y(b->in, 4);
    s.injectInput(x);
    s.setNextTime(1.0);
    s.computeNextOutput();
    s.injectInput(y);
    s.computeNextOutput();
    s.computeNextState();
    CHECK(b->seen.size() == 1 && b->seen[0] == 4);
}
'''),
    ('injected-pin-of-entry', 'S04',
     {'include/adevs/simulator.h': [('''                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                        nullptr,x));''',
        '''                    std::pair<Atomic<ValueType,TimeType>*,PinValue<ValueType>>(
                        nullptr,y));''')]},
     'an input injected at a pin that is connected to a Mealy model through another pin',
     'the model sees the input on the pin where it was injected and not on its own',
     '''
struct Which : public Relay {
    std::vector<adevs::pin_t> pins;
    void delta_ext(double e, std::list<PV> const &x) { for (auto y : x) pins.push_back(y.pin); Relay::delta_ext(e, x); }
};
int main() {
    auto w = std::make_shared<Which>();
    auto g = std::make_shared<G>();
    adevs::pin_t entry;
    g->add_atomic(w);
    g->connect(entry, w->in); g->connect(w->in, w);
    Sim s(g);
    PV x(entry, 7);
    s.injectInput(x);
    s.setNextTime(1.0);
    s.execNextEvent();
    CHECK(w->pins.size() == 1);
    CHECK(w->pins[0] == w->in);
}
'''),
    ('tolerance-of-larger-value', 'T02',
     {'src/adevs.cpp': [('    frexp(fabs(x1) > fabs(x2) ? x1 : x2, &exponent);',
        '    frexp(x1 > x2 ? x1 : x2, &exponent);')]},
     'two negative numbers on either side of a power of two',
     'the tolerance follows the operand that is larger, not the one that is larger in magnitude',
     '''
double adevs::double_fcmp::epsilon = 0.01;
int main() {
    adevs::double_fcmp a(8.0), b(7.9), c(-8.0), d(-7.9);
    CHECK(a == b && b == a);
    CHECK(c == d && d == c);
    CHECK(!(c < d) && !(d > c));
}
''', {'pre': 'SDPRE'}),
    ('locator-values-sized-by-states', 'R02',
     {'include/adevs/solvers/event_locators.h': [('''    z[0] = new double[sys->numEvents()];
    z[1] = new double[sys->numEvents()];''',
        '''    z[0] = new double[sys->numEvents()];
    z[1] = new double[sys->numVars()];''')]},
     'a system with more state events than state variables',
     'the event values at the end of the interval are written past the end of their array',
     '''
int main() {
    Sys s({0.0}, drift, 40, [](double const *q, double *z) { for (int i = 0; i < 40; i++) z[i] = q[0] - 10.0 - i; });
    adevs::bisection_event_locator<int> loc(&s, 1e-6);
    adevs::rk_45<int> rk(&s, 1e-6, 1.0);
    bool ev[41];
    double a[1] = {0.0}, b[1] = {0.5}, h = 0.5;
    CHECK(!loc.find_events(ev, a, b, &rk, h));
}
''', {'cflags': '-g -fsanitize=address -fno-omit-frame-pointer ', 'pre': 'SOLP'}),
    ('fast-locator-slopes-sized-by-events', 'R02',
     {'include/adevs/solvers/event_locators.h': [('''        dq0 = new double[sys->numVars()];
        dqh = new double[sys->numVars()];''',
        '''        dq0 = new double[sys->numVars()];
        dqh = new double[sys->numEvents()];''')]},
     'an interpolating locator for a system with more state variables than events',
     'the derivative at the end of the interval is written past the end of its array',
     '''
int main() {
    Sys s(std::vector<double>(40, 0.0), [](double const *, double *dq) { for (int i = 0; i < 40; i++) dq[i] = 1.0; }, 1,
          [](double const *q, double *z) { z[0] = q[0] - 0.25; });
    adevs::fast_event_locator<int> loc(&s, 1e-6, true);
    adevs::rk_45<int> rk(&s, 1e-6, 1.0);
    bool ev[2];
    double a[40] = {0.0}, b[40], h = 0.5;
    for (double &x : b) x = 0.5;
    CHECK(loc.find_events(ev, a, b, &rk, h));
    CHECK(std::fabs(h - 0.25) < 1e-3);
}
''', {'cflags': '-g -fsanitize=address -fno-omit-frame-pointer ', 'pre': 'SOLP'}),
    ('component-removed-before-joining', 'R03',
     {'include/adevs/models.h': [('''        if (g != nullptr) {
            g->disconnect(iter->first, model);
        }
        iter = pin_to_atomic.erase(iter);''',
        '''        g->disconnect(iter->first, model);
        iter = pin_to_atomic.erase(iter);''')]},
     'a coupled model that is not part of a simulation, from which a component with a coupling is removed',
     'the null pointer to the simulated graph is followed',
     '''
int main() {
    C c;
    auto a = std::make_shared<Node>(std::vector<double>{1});
    c.add_atomic(a);
    c.create_coupling(a->in, a);
    c.remove_atomic(a);
    Sim s(std::make_shared<C>(c));
    CHECK(s.nextEventTime() == INF);
}
'''),
    ('submodel-removed-before-joining', 'R03',
     {'include/adevs/models.h': [('''    coupled_components.erase(model);
    if (g != nullptr) {
        model->remove_from_graph();
    }''',
        '''    if (coupled_components.erase(model) > 0) {
        model->remove_from_graph();
    }''')]},
     'a sub-model with components that is taken out of a coupled model before the simulation',
     'the sub-model withdraws its components from a graph it never joined',
     '''
int main() {
    auto outer = std::make_shared<C>(), inner = std::make_shared<C>();
    auto a = std::make_shared<Node>(std::vector<double>{1});
    inner->add_atomic(a);
    outer->add_coupled_model(inner);
    outer->remove_coupled_model(inner);
    Sim s(outer);
    CHECK(s.nextEventTime() == INF);
}
'''),
    ('cvode-late-event-not-saved', 'C01',
     {'include/adevs/solvers/cvode.h': [('''    } else {
        this->cvode_delta_ext(t, xb);
    }
    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);''',
        '''    } else {
        this->cvode_delta_ext(t, xb);
        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
    }''')]},
     'an input in the middle of a step that coincides with an event of the model, and another one in the step after it',
     'the solver is restarted from the state before the first input',
     '''
int main() {
    Unit u;
    std::list<PV> x;
    CHECK(u.ta() == 1.0);
    u.next_event = 0.5;
    u.delta_ext(0.5, x);
    CHECK(u.log == "c" && u.v() == 1000.5);
    u.next_event = 1e9;
    CHECK(u.ta() == 1.0);
    u.delta_ext(0.25, x);
    CHECK(u.log == "ce" && u.v() == 1000.75);
}
''', {'pre': 'CVP', 'libs': '-lsundials_nvecserial -lsundials_generic -lm src/adevs.cpp'}),
    ('linear-guess-of-first-event', 'N05',
     {'include/adevs/solvers/event_locators.h': [('double tcandidate = z[0][i] * h / (z[0][i] - z[1][i]);',
        'double tcandidate = z[0][0] * h / (z[0][0] - z[1][i]);')]},
     'interpolation with two event functions of which the second is the one that changes sign',
     'the guess is not in front of the end of the interval, so the search never ends',
     '''
#include <unistd.h>
int main() {
    alarm(10);
    Sys s({0.0}, drift, 2, [](double const *q, double *z) { z[0] = -5.0 + q[0]; z[1] = 0.25 - q[0]; });
    adevs::linear_event_locator<int> loc(&s, 1e-3);
    adevs::corrected_euler<int> ce(&s, 1e-6, 1.0);
    bool ev[3];
    double a[1] = {0.0}, b[1] = {0.5}, h = 0.5;
    CHECK(loc.find_events(ev, a, b, &ce, h));
    CHECK(!ev[0] && ev[1] && std::fabs(h - 0.25) < 0.01);
}
''', {'pre': 'SOLP'}),
]
