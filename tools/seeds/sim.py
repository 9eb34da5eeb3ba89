S = 'include/adevs/simulator.h'
G = 'include/adevs/graph.h'
M = 'include/adevs/models.h'
PRELUDE = r'''#include "adevs/adevs.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>
using PV = adevs::PinValue<int>;
using A = adevs::Atomic<int>;
using MA = adevs::MealyAtomic<int>;
using Sim = adevs::Simulator<int>;
using G = adevs::Graph<int>;
using C = adevs::Coupled<int>;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
static const double INF = adevs_inf<double>();

// A model with a list of time advances, that notes everything that happens to it
struct Node : public A {
    adevs::pin_t in, out;
    std::vector<double> tas;
    size_t k = 0;
    bool emit = true;
    std::string log;
    std::vector<double> es;
    std::vector<int> seen;
    int value = 1, noutput = 0;
    Node(std::vector<double> t, bool emit = true) : tas(t), emit(emit) {}
    double ta() { return k < tas.size() ? tas[k] : INF; }
    void delta_int() { log += 'i'; k++; }
    void delta_ext(double e, std::list<PV> const &x) {
        log += 'e'; es.push_back(e); for (auto y : x) seen.push_back(y.value); k++;
    }
    void delta_conf(std::list<PV> const &x) {
        log += 'c'; for (auto y : x) seen.push_back(y.value); k++;
    }
    void output_func(std::list<PV> &y) { noutput++; if (emit) y.push_back(PV(out, value)); }
};
// A Mealy model that adds one to the sum of its input
struct Relay : public MA {
    adevs::pin_t in, out;
    double sigma;
    std::string log, olog;
    std::vector<int> seen;
    Relay(double s = adevs_inf<double>()) : sigma(s) {}
    double ta() { return sigma; }
    void note(std::list<PV> const &x) { for (auto y : x) seen.push_back(y.value); }
    void delta_int() { log += 'i'; sigma = INF; }
    void delta_ext(double, std::list<PV> const &x) { log += 'e'; note(x); sigma = INF; }
    void delta_conf(std::list<PV> const &x) { log += 'c'; note(x); sigma = INF; }
    void output_func(std::list<PV> &y) { olog += 'i'; y.push_back(PV(out, 1)); }
    void sum(std::list<PV> const &x, std::list<PV> &y) {
        int s = 1; for (auto v : x) s += v.value; y.push_back(PV(out, s));
    }
    void external_output_func(double, std::list<PV> const &x, std::list<PV> &y) { olog += 'e'; sum(x, y); }
    void confluent_output_func(std::list<PV> const &x, std::list<PV> &y) { olog += 'c'; sum(x, y); }
};
struct Listener : public adevs::EventListener<int> {
    std::vector<std::pair<A*, int>> outs, ins;
    std::vector<A*> changes;
    std::vector<double> times;
    std::string order;
    void outputEvent(A &m, PV &v, double t) { outs.push_back({&m, v.value}); order += 'o'; times.push_back(t); }
    void inputEvent(A &m, PV &v, double t) { ins.push_back({&m, v.value}); order += 'i'; times.push_back(t); }
    void stateChange(A &m, double t) { changes.push_back(&m); order += 's'; times.push_back(t); }
};
'''
SEEDS = [
 ('negative-advance-scheduled', 'S02',
  {S: [('        if (dt < adevs_zero<TimeType>()) {\n            exception err("Negative time advance", model);\n            throw err;\n        }\n        sched.schedule(model, model->tN);', '        sched.schedule(model, model->tN);\n        if (dt < adevs_zero<TimeType>()) {\n            exception err("Negative time advance", model);\n            throw err;\n        }')]},
  'a negative time advance whose exception is caught by the caller, who goes on with the simulator',
  'the model is moved in the schedule although its time advance is negative',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{1, -1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{INF});
    auto g = std::make_shared<G>();
    g->add_atomic(a); g->add_atomic(b);
    Sim s(g);
    bool thrown = false;
    try { s.execNextEvent(); } catch (adevs::exception &) { thrown = true; }
    CHECK(thrown);
    // the schedule still has the event that was announced
    s.computeNextOutput();
    CHECK(a->noutput == 2);
}
'''),
 ('stale-inputs-on-recompute', 'S03',
  {S: [('        model->outputs.clear();\n        model->inputs.clear();\n    }\n    active.clear();', '        model->outputs.clear();\n        if (model->isMealyAtomic() == nullptr && model->tN == sched.minPriority()) {\n            model->inputs.clear();\n        }\n    }\n    active.clear();')]},
  'output that is computed twice before the state is advanced (a superseded computation), with a receiver that is not due',
  'input of the superseded computation stays in the receiver\'s bag and is delivered as well',
  r'''
int main() {
    auto src = std::make_shared<Node>(std::vector<double>{1, INF});
    auto dst = std::make_shared<Node>(std::vector<double>{5, INF});
    auto g = std::make_shared<G>();
    g->add_atomic(src); g->add_atomic(dst);
    g->connect(src->out, dst->in); g->connect(dst->in, dst);
    Sim s(g);
    s.computeNextOutput();
    s.computeNextOutput();
    s.computeNextState();
    CHECK(dst->seen.size() == 1);
    CHECK(src->noutput == 2);
}
'''),
 ('route-value-reused', 'S04',
  {S: [('                x.value = y.value;\n                graph->route(y.pin, input);\n                for (auto consumer : input) {\n                    x.pin = consumer.first;', '                graph->route(y.pin, input);\n                if (input.size() > 0 && !(x.pin == input.back().first)) {\n                    x.value = y.value;\n                }\n                for (auto consumer : input) {\n                    x.pin = consumer.first;')]},
  'two outputs in a row whose routes end at the same pin',
  'the second event carries the value of the first',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{1, INF});
    auto d = std::make_shared<Node>(std::vector<double>{INF, INF});
    a->value = 3; b->value = 4;
    auto g = std::make_shared<G>();
    g->add_atomic(a); g->add_atomic(b); g->add_atomic(d);
    g->connect(a->out, d->in); g->connect(b->out, d->in); g->connect(d->in, d);
    Sim s(g);
    s.execNextEvent();
    CHECK(d->seen.size() == 2 && d->seen[0] + d->seen[1] == 7 && d->seen[0] != d->seen[1]);
}
'''),
 ('listener-mealy-output-at-once', 'S05',
  {S: [('            for (auto y : model->outputs) {\n                for (auto listener : listeners) {\n                    listener->outputEvent(*model, y, tNext);\n                }\n            }\n            model->isMealyAtomic()->receivers.clear();', '            model->isMealyAtomic()->receivers.clear();'),
       ('    for (auto y : root->outputs) {\n        x.value = y.value;', '    for (auto y : root->outputs) {\n        for (auto listener : listeners) {\n            listener->outputEvent(*root, y, tNext);\n        }\n        x.value = y.value;')]},
  'a Mealy model whose output is withdrawn and recomputed because another Mealy model that is visited later sends it input',
  'listeners are told of an output that was withdrawn',
  r'''
int main() {
    // r2 is visited before r1 when its address is smaller: try both roles
    for (int swap = 0; swap < 2; swap++) {
        auto src = std::make_shared<Node>(std::vector<double>{1, INF});
        std::vector<std::shared_ptr<Relay>> r{std::make_shared<Relay>(), std::make_shared<Relay>()};
        std::sort(r.begin(), r.end());
        auto r1 = r[swap], r2 = r[1 - swap];
        auto g = std::make_shared<G>();
        g->add_atomic(src); g->add_atomic(r1); g->add_atomic(r2);
        g->connect(src->out, r1->in); g->connect(src->out, r2->in);
        g->connect(r1->in, r1); g->connect(r2->in, r2);
        g->connect(r1->out, r2->in);
        auto l = std::make_shared<Listener>();
        Sim s(g);
        s.addEventListener(l);
        s.execNextEvent();
        int n = 0;
        for (auto o : l->outs) if (o.first == r2.get()) { n++; CHECK(o.second == 4); }
        CHECK(n == 1);
    }
}
'''),
 ('listener-input-after-first', 'S05',
  {S: [('        for (auto x : model->inputs) {\n            for (auto listener : listeners) {\n                listener->inputEvent(*model, x, tNext);\n            }\n        }', '        for (auto listener : listeners) {\n            for (auto x : model->inputs) {\n                listener->inputEvent(*model, x, tNext);\n            }\n            if (model->inputs.size() > 1) {\n                break;\n            }\n        }')]},
  'more than one listener and a model that gets two or more inputs at once',
  'only the first listener is told of the inputs',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{1, INF});
    auto d = std::make_shared<Node>(std::vector<double>{INF, INF});
    auto g = std::make_shared<G>();
    g->add_atomic(a); g->add_atomic(b); g->add_atomic(d);
    g->connect(a->out, d->in); g->connect(b->out, d->in); g->connect(d->in, d);
    auto l1 = std::make_shared<Listener>(), l2 = std::make_shared<Listener>();
    Sim s(g);
    s.addEventListener(l1); s.addEventListener(l2);
    s.execNextEvent();
    CHECK(l1->ins.size() == 2 && l2->ins.size() == 2);
}
'''),
 ('pending-swapped-connect', 'S06',
  {S: [('graph->disconnect(op.pin[0], op.pin[1]);', 'graph->disconnect(op.pin[1], op.pin[0]);')]},
  'a pin to pin coupling removed while the simulation runs',
  'the queued disconnection is applied with its pins exchanged, so the coupling stays',
  r'''
struct Cutter : public Node {
    C* c; adevs::pin_t p;
    using Node::Node;
    void delta_int() { Node::delta_int(); c->remove_coupling(out, p); }
};
int main() {
    auto c = std::make_shared<C>();
    auto a = std::make_shared<Cutter>(std::vector<double>{1, 1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{INF, INF, INF});
    a->c = c.get(); a->p = b->in;
    c->add_atomic(a); c->add_atomic(b);
    c->create_coupling(a->out, b->in); c->create_coupling(b->in, b);
    Sim s(c);
    s.execNextEvent();
    s.execNextEvent();
    CHECK(b->seen.size() == 1);
}
'''),
 ('mealy-withdraw-first-input', 'S07',
  {S: [('                iter2 = (*iter)->revisable_inputs.erase(iter2);\n            } else {', '                iter2 = (*iter)->revisable_inputs.erase(iter2);\n                break;\n            } else {')]},
  'a Mealy model that sends two events to the same receiver and whose output is then withdrawn because of late input',
  'only the first of the withdrawn events is taken from the receiver, so it sees an event of a superseded computation',
  r'''
struct Twice : public Relay {
    void external_output_func(double, std::list<PV> const &x, std::list<PV> &y) {
        int s = 0; for (auto v : x) s += v.value;
        y.push_back(PV(out, s)); y.push_back(PV(out, s));
    }
};
int main() {
    for (int swap = 0; swap < 2; swap++) {
        auto src = std::make_shared<Node>(std::vector<double>{1, INF});
        std::vector<std::shared_ptr<Twice>> r{std::make_shared<Twice>(), std::make_shared<Twice>()};
        std::sort(r.begin(), r.end());
        auto r1 = r[swap], r2 = r[1 - swap];
        auto end = std::make_shared<Node>(std::vector<double>{INF, INF});
        auto g = std::make_shared<G>();
        g->add_atomic(src); g->add_atomic(r1); g->add_atomic(r2); g->add_atomic(end);
        g->connect(src->out, r1->in); g->connect(src->out, r2->in);
        g->connect(r1->in, r1); g->connect(r2->in, r2);
        g->connect(r1->out, r2->in);
        g->connect(r2->out, end);
        Sim s(g);
        s.execNextEvent();
        CHECK(end->seen.size() == 2 && end->seen[0] == 3 && end->seen[1] == 3);
    }
}
'''),
 ('mealy-confluent-unless-moore-input', 'S07',
  {S: [('    } else if (root->tN == tNext) {\n        // Confluent event', '    } else if (root->tN == tNext && root->revisable_inputs.front().first != nullptr) {\n        // Confluent event')]},
  'a due Mealy model whose first input was injected from outside',
  'its external output function is called instead of the confluent one',
  r'''
int main() {
    auto r = std::make_shared<Relay>(2.0);
    auto g = std::make_shared<G>();
    g->add_atomic(r);
    g->connect(r->in, r);
    Sim s(g);
    PV x(r->in, 5);
    s.injectInput(x);
    s.execNextEvent();
    CHECK(r->olog == "c" && r->log == "c");
}
'''),
 ('remove-atomic-first-pin-only', 'G01',
  {G: [('                // Remove the model from the pin to atomic map.\n                atomic_list_iter = i->second.erase(atomic_list_iter);', '                // Remove the model from the pin to atomic map.\n                if (atomic_list_iter->second > 1) {\n                    atomic_list_iter->second--;\n                    atomic_list_iter++;\n                    continue;\n                }\n                atomic_list_iter = i->second.erase(atomic_list_iter);')]},
  'a model connected twice to the same pin and then removed',
  'a connection to the removed model stays in the graph',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{INF});
    G g;
    g.add_atomic(a);
    g.connect(a->in, a); g.connect(a->in, a);
    g.remove_atomic(a);
    std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> r;
    g.route(a->in, r);
    CHECK(r.empty());
}
'''),

 ('route-skips-pins-with-models', 'G02',
  {G: [('            route((*s).first, models);', '            if (pin_to_atomic.find((*s).first) == pin_to_atomic.end() || pin_to_pin.find((*s).first) == pin_to_pin.end()) {\n                route((*s).first, models);\n            } else {\n                for (auto const &m : pin_to_atomic.find((*s).first)->second) {\n                    models.push_back(std::make_pair((*s).first, m.first));\n                }\n            }')]},
  'a path of three pins whose middle pin also has a model',
  'routes that continue past a pin with models of its own are lost',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{INF}), b = std::make_shared<Node>(std::vector<double>{INF});
    G g;
    g.add_atomic(a); g.add_atomic(b);
    adevs::pin_t p, q, r;
    g.connect(p, q); g.connect(q, a); g.connect(q, r); g.connect(r, b);
    std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> l;
    g.route(p, l);
    CHECK(l.size() == 2 && l.front().second == a && l.back().second == b && l.back().first == r);
}
'''),
 ('disconnect-forgets-pin', 'G01',
  {G: [('            if ((*iter).second == 0) {\n                // Remove the model from the pin to atomic map.\n                atomic_list.erase(iter);\n                if (atomic_list.empty()) {', '            if ((*iter).second == 0) {\n                // Remove the model from the pin to atomic map.\n                iter = atomic_list.erase(iter);\n                if (iter == atomic_list.end()) {')]},
  'a pin with two models of which the one connected last is disconnected',
  'all other connections of the pin are dropped as well',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{INF}), b = std::make_shared<Node>(std::vector<double>{INF});
    G g;
    g.add_atomic(a); g.add_atomic(b);
    adevs::pin_t p;
    g.connect(p, a); g.connect(p, b);
    g.disconnect(p, b);
    std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> l;
    g.route(p, l);
    CHECK(l.size() == 1 && l.front().second == a);
}
'''),
 ('queue-merges-repeats', 'G03',
  {G: [('    op.op = CONNECT_PIN_TO_PIN;\n    op.pin[0] = src;\n    op.pin[1] = dst;\n    pending.push_back(op);', '    op.op = CONNECT_PIN_TO_PIN;\n    op.pin[0] = src;\n    op.pin[1] = dst;\n    // A connection that is about to be cut need not be made again\n    if (!pending.empty() && pending.back().op == DISCONNECT_PIN_FROM_PIN &&\n        pending.back().pin[0] == src && pending.back().pin[1] == dst) {\n        pending.pop_back();\n        return;\n    }\n    pending.push_back(op);')]},
  'a pin to pin coupling that does not exist is removed and then created within one event while simulating',
  'the creation is lost',
  r'''
struct Changer : public Node {
    C* c; adevs::pin_t p;
    using Node::Node;
    void delta_int() { if (k == 0) { c->remove_coupling(out, p); c->create_coupling(out, p); } Node::delta_int(); }
};
int main() {
    auto c = std::make_shared<C>();
    auto a = std::make_shared<Changer>(std::vector<double>{1, 1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{INF, INF, INF});
    a->c = c.get(); a->p = b->in;
    c->add_atomic(a); c->add_atomic(b);
    c->create_coupling(b->in, b);
    Sim s(c);
    s.execNextEvent();
    CHECK(b->seen.empty());
    s.execNextEvent();
    CHECK(b->seen.size() == 1);
}
'''),
]
