from sim import PRELUDE, S, G, M
Q = 'include/adevs/sched.h'
T = 'include/adevs/time.h'
FC = 'src/adevs.cpp'
CF = 'src/adevs.cpp'
SDPRE = r'''#include "adevs/adevs.h"
#include <cstdio>
#include <cstdlib>
#include <list>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
'''
QPRE = SDPRE + r'''
using A = adevs::Atomic<int>;
using Q = adevs::Schedule<int>;
struct M : public A {
    double ta() { return 0; }
    void delta_int() {}
    void delta_ext(double, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
};
static const double INF = adevs_inf<double>();
'''
SEEDS = [
 ('queue-last-sibling', 'Q01',
  {Q: [('        if (child != size && heap[child + 1].priority < heap[child].priority) {', '        if (child + 1 < size && heap[child + 1].priority < heap[child].priority) {')]},
  'a queue whose last entry is the right child of the node that is filled and has the smaller priority of the two',
  'the order of the heap is lost, so a later minimum comes too late',
  r'''
int main() {
    std::mt19937 r(7);
    for (int rep = 0; rep < 400; rep++) {
        Q q;
        int n = 2 + rep % 9;
        std::vector<std::unique_ptr<M>> m;
        std::multiset<double> s;
        for (int i = 0; i < n; i++) {
            m.emplace_back(new M);
            double p = r() % 50;
            q.schedule(m.back().get(), p);
            s.insert(p);
        }
        while (!q.empty()) {
            CHECK(q.minPriority() == *s.begin());
            s.erase(s.begin());
            q.removeMinimum();
        }
    }
}
''', {'pre': 'QPRE'}),
 ('queue-growth-drops-last', 'Q02',
  {Q: [('    for (unsigned int i = 0; i < capacity; i++) {\n        rheap[i] = heap[i];', '    for (unsigned int i = 0; i + 1 < capacity; i++) {\n        rheap[i] = heap[i];')]},
  'a schedule that grows',
  'the entry in the last place is lost when the storage is enlarged',
  r'''
int main() {
    Q q(8);
    std::vector<std::unique_ptr<M>> m;
    for (int i = 0; i < 8; i++) {
        m.emplace_back(new M);
        q.schedule(m.back().get(), i);
    }
    for (int i = 0; i < 8; i++) {
        CHECK(q.minPriority() == i);
        CHECK(q.getMinimum() == m[i].get());
        q.removeMinimum();
    }
    CHECK(q.empty());
}
''', {'pre': 'QPRE'}),
 ('superdense-confluent-next-instant', 'S01',
  {S: [('        } else if (model->tN == tNext) {\n            // Confluent event if model is imminent and has input\n            model->delta_conf', '        } else if (model->tN <= t) {\n            // Confluent event if model is imminent and has input\n            model->delta_conf')]},
  'superdense time and a model that has input one step of the integer part before its own event',
  'the model makes a confluent transition although it is not due',
  r'''
using T = adevs::sd_time<double>;
struct N : public adevs::Atomic<int, T> {
    T s;
    adevs::pin_t out;
    std::string log;
    N(T s) : s(s) {}
    T ta() { return s; }
    void delta_int() { log += 'i'; s = adevs_inf<T>(); }
    void delta_ext(T, std::list<adevs::PinValue<int>> const &) { log += 'e'; s = adevs_inf<T>(); }
    void delta_conf(std::list<adevs::PinValue<int>> const &) { log += 'c'; s = adevs_inf<T>(); }
    void output_func(std::list<adevs::PinValue<int>> &y) { y.push_back(adevs::PinValue<int>(out, 1)); }
};
int main() {
    auto a = std::make_shared<N>(T(2, 0)), b = std::make_shared<N>(T(2, 1));
    auto g = std::make_shared<adevs::Graph<int, T>>();
    g->add_atomic(a);
    g->add_atomic(b);
    g->connect(a->out, b);
    adevs::Simulator<int, T> s(g);
    CHECK(s.nextEventTime() == T(2, 0));
    s.execNextEvent();
    CHECK(a->log == "i");
    CHECK(b->log == "e");
}
''', {'pre': 'SDPRE'}),
 ('internal-before-due', 'S01',
  {S: [('        if (model->inputs.empty()) {\n            model->delta_int();\n        } else if', '        if (model->inputs.empty() || (model->isMealyAtomic() != nullptr && model->tN < adevs_inf<TimeType>() && model->inputs.size() > 1 && !(model->tN == tNext))) {\n            model->inputs.clear();\n            model->delta_int();\n        } else if')]},
  'a Mealy model with a pending event that receives two inputs at once before it is due',
  'it makes an internal transition instead of the external one',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{1, INF});
    auto r = std::make_shared<Relay>(5);
    auto g = std::make_shared<G>();
    g->add_atomic(a); g->add_atomic(b); g->add_atomic(r);
    g->connect(a->out, r); g->connect(b->out, r);
    Sim s(g);
    s.execNextEvent();
    CHECK(r->log == "e");
    CHECK(r->seen.size() == 2);
}
'''),
 ('reconnect-before-disconnect', 'S06',
  {S: [('        auto op = pending.front();\n        pending.pop_front();', '        auto op = pending.back();\n        pending.pop_back();')]},
  'two structure changes requested during one event that do not commute',
  'the changes are applied in reverse order',
  r'''
struct Cutter : public Node {
    C* c; std::shared_ptr<A> m;
    using Node::Node;
    void delta_int() {
        Node::delta_int();
        c->remove_coupling(out, m);
        c->create_coupling(out, m);
    }
};
int main() {
    auto c = std::make_shared<C>();
    auto a = std::make_shared<Cutter>(std::vector<double>{1, 1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{INF, INF, INF});
    a->c = c.get(); a->m = b;
    c->add_atomic(a); c->add_atomic(b);
    Sim s(c);
    s.execNextEvent();
    s.execNextEvent();
    CHECK(b->seen.size() == 1);
}
'''),
 ('removed-instance-stops-all', 'S06',
  {S: [('            case Graph<ValueType, TimeType>::REMOVE_PIN:\n                graph->remove_pin(op.pin[0]);', '            case Graph<ValueType, TimeType>::REMOVE_PIN:\n                graph->remove_pin(op.pin[1]);')]},
  'a pin that is removed while the simulation runs',
  'another pin than the requested one is removed',
  r'''
struct Cutter : public Node {
    G* g;
    using Node::Node;
    void delta_int() { Node::delta_int(); g->remove_pin(out); }
};
int main() {
    auto g = std::make_shared<G>();
    auto a = std::make_shared<Cutter>(std::vector<double>{1, 1, INF});
    auto b = std::make_shared<Node>(std::vector<double>{INF, INF, INF});
    a->g = g.get();
    g->add_atomic(a); g->add_atomic(b);
    g->connect(a->out, b);
    Sim s(g);
    s.execNextEvent();
    s.execNextEvent();
    CHECK(b->seen.size() == 1);
}
'''),
 ('route-once-per-pin', 'G02',
  {G: [('        for (auto s = r->second.begin(); s != r->second.end(); s++) {\n            route((*s).first, models);\n        }', '        for (auto s = r->second.begin(); s != r->second.end(); s++) {\n            bool known = false;\n            for (auto const &m : models) {\n                known = known || m.first == (*s).first;\n            }\n            if (!known) {\n                route((*s).first, models);\n            }\n        }')]},
  'two paths from a pin that lead to the same last pin',
  'the second path is left out',
  r'''
int main() {
    auto a = std::make_shared<Node>(std::vector<double>{INF});
    G g;
    adevs::pin_t p, q, r, z;
    g.add_atomic(a);
    g.connect(p, q); g.connect(p, r);
    g.connect(q, z); g.connect(r, z);
    g.connect(z, a);
    std::list<std::pair<adevs::pin_t, std::shared_ptr<A>>> m;
    g.route(p, m);
    CHECK(m.size() == 2);
}
'''),
 ('coupled-forgets-while-assigned', 'G04',
  {M: [('    pin_to_atomic.insert(std::make_pair(pin, model));\n    if (g != nullptr) {\n        g->connect(pin, model);', '    if (g == nullptr) {\n        pin_to_atomic.insert(std::make_pair(pin, model));\n    } else {\n        g->connect(pin, model);')]},
  'a coupling made while the coupled model is part of a simulation, and the coupled model leaving and joining again',
  'the coupling is not remembered, so it is missing when the model joins again',
  r'''
#include <functional>
struct Ctl : public Node {
    std::function<void()> f;
    using Node::Node;
    void delta_int() { Node::delta_int(); f(); }
};
int main() {
    auto top = std::make_shared<C>(), sub = std::make_shared<C>();
    auto src = std::make_shared<Node>(std::vector<double>{1, 1, 1, 1, INF});
    auto dst = std::make_shared<Node>(std::vector<double>{INF, INF, INF, INF});
    auto ctl = std::make_shared<Ctl>(std::vector<double>{0.5, 1, 1, 1, INF});
    int step = 0;
    ctl->f = [&]() {
        switch (step++) {
            case 0: sub->create_coupling(src->out, dst); break;
            case 1: top->remove_coupled_model(sub); break;
            case 2: top->add_coupled_model(sub); break;
        }
    };
    top->add_atomic(src); top->add_atomic(ctl);
    sub->add_atomic(dst);
    top->add_coupled_model(sub);
    Sim s(top);
    while (s.nextEventTime() < INF) s.execNextEvent();
    CHECK(dst->seen.size() == 3);
}
'''),
 ('superdense-order-ignores-integer', 'T01',
  {T: [('    bool operator<=(sd_time const &t2) const { return (*this == t2 || *this < t2); }', '    bool operator<=(sd_time const &t2) const { return (t < t2.t || (t == t2.t && k - t2.k <= 0)); }')]},
  'two superdense times with equal real part whose integer parts are far apart',
  'the difference of the integer parts overflows, so <= disagrees with <',
  r'''
int main() {
    using T = adevs::sd_time<double>;
    T big(1.0, 2000000000), neg(1.0, -2000000000);
    volatile bool lt = neg < big, le = neg <= big, ge = big >= neg, gt = neg > big;
    CHECK(lt); CHECK(le); CHECK(ge); CHECK(!gt);
    T a = adevs_inf<T>();
    T b(std::numeric_limits<double>::max(), -5);
    volatile bool x = b <= a, y = b < a;
    CHECK(x); CHECK(y);
}
''', {'pre': 'SDPRE', 'cflags': '-fwrapv '}),
 ('superdense-interval-forgets-integer', 'T01',
  {T: [('        if (t == t2.t) {\n            t = 0;\n            k -= t2.k;', '        if (t == t2.t) {\n            t = 0;\n            k = (k < t2.k) ? 0 : k - t2.k;')]},
  'the interval between two times at the same real part, taken backwards',
  'advancing by the interval does not arrive at the other instant',
  r'''
int main() {
    using T = adevs::sd_time<double>;
    T a(2.0, 5), b(2.0, 3);
    CHECK(b + (a - b) == a);
    CHECK(a + (b - a) == b);
}
''', {'pre': 'SDPRE'}),
 ('tolerance-of-first-operand', 'T02',
  {CF: [('    frexp(fabs(x1) > fabs(x2) ? x1 : x2, &exponent);', '    frexp(x2 == 0.0 || fabs(x1) > fabs(x2) ? x1 : (x1 == 0.0 ? 0.0 : x2), &exponent);')]},
  'a comparison of zero with a value, in both orders',
  'the tolerance scales with the other operand only in one of the orders',
  r'''
int main() {
    for (int i = 1; i < 200; i++) {
        double eps = adevs::double_fcmp::epsilon = 0.3;
        double v = i * 7.0;
        (void)eps;
        adevs::double_fcmp a(0.0), b(v);
        CHECK((a < b) == (b > a));
        CHECK((a == b) == (b == a));
    }
    double tiny = 1e-3;
    adevs::double_fcmp::epsilon = 1e-2;
    adevs::double_fcmp a(0.0), b(tiny);
    CHECK((a == b) == (b == a));
    CHECK((a < b) == (b > a));
}
double adevs::double_fcmp::epsilon = 0.0;
''', {'pre': 'SDPRE'}),
 ('pin-copy-renews', 'T03',
  {M: [('    PinValue<ValueType> const &operator=(PinValue const &src) {\n        pin = src.pin;\n        value = src.value;', '    PinValue<ValueType> const &operator=(PinValue const &src) {\n        if (&src != this && !(pin <= src.pin && pin >= src.pin)) {\n            pin = src.pin;\n            value = src.value;\n        }')]},
  'assigning an event to one that has the same pin',
  'the value is not assigned',
  r'''
int main() {
    adevs::pin_t p, q;
    adevs::PinValue<int> a(p, 1), b(p, 2), c(q, 3);
    a = c; CHECK(a.value == 3 && a.pin == q);
    a = b; CHECK(a.value == 2 && a.pin == p);
    b.value = 7;
    a = b; CHECK(a.value == 7);
}
''', {'pre': 'SDPRE'}),
 ('pin-identity-not-atomic', 'T03',
  {M: [('    pin_t() : id(atom++) {}', '    pin_t() : id(atom.load()) { atom.store(id + 1); }')]},
  'pins that are created by several threads at the same time',
  'two threads read the counter before either stores it, and two pins are equal',
  r'''
#include <thread>
int main() {
    for (int rep = 0; rep < 20; rep++) {
        std::vector<std::vector<adevs::pin_t>> v(8);
        std::vector<std::thread> th;
        for (int i = 0; i < 8; i++) th.emplace_back([&v, i]() {
            std::vector<adevs::pin_t> mine(20000);
            v[i].swap(mine);
        });
        for (auto &t : th) t.join();
        std::set<adevs::pin_t> s;
        size_t n = 0;
        for (auto &x : v) { n += x.size(); s.insert(x.begin(), x.end()); }
        CHECK(s.size() == n);
    }
}
''', {'pre': 'SDPRE', 'cflags': '-pthread '}),
]
