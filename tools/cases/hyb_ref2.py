import subprocess
H = 'include/adevs/solvers/hybrid.h'
RULES = ['H01', 'H02', 'R01', 'R02', 'R03']
SRC = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + H], capture_output=True, text=True).stdout
CASES = []
def fn(start, end='\n    }\n'):
    i = SRC.index(start)
    j = SRC.index(end, i) + len(end)
    return SRC[i:j]
INT = fn('    void delta_int() {'); EXT = fn('    void delta_ext('); CONF = fn('    void delta_conf('); TA = fn('    TimeType ta() {')
OUT = fn('    void output_func(std::list<adevs::PinValue<ValueType>> &yb) {'); TEN = fn('    void tentative_step() {')
CTOR = fn('    Hybrid(ode_system<ValueType>* sys, ode_solver')
PRIV = '  private:\n    ode_system<ValueType>* sys;              // The ODE system\n'
def c(cid, *eds):
    CASES.append((cid, '', [(H, a, b) for a, b in eds]))
def priv(code):
    return (PRIV, '  private:\n' + code + PRIV[len('  private:\n'):])
CPQ = '        for (int i = 0; i < sys->numVars(); i++) {\n            q[i] = q_trial[i];\n        }\n'
CPT = '        for (int i = 0; i < sys->numVars(); i++) {\n            q_trial[i] = q[i];\n        }\n'
CPT8 = CPT.replace('\n    ', '\n        ').replace('        for', '            for', 1)
CPQ16 = '                for (int i = 0; i < sys->numVars(); i++) {\n                    q[i] = q_trial[i];\n                }\n'
CPT12 = '            for (int i = 0; i < sys->numVars(); i++) {\n                q_trial[i] = q[i];\n            }\n'
c('enter-state', (INT, INT.replace(CPQ + '        tentative_step();  // Take a tentative step\n', '        enter_state();\n')), (CONF, CONF.replace(CPQ + '        tentative_step();  // Take a tentative step\n', '        enter_state();\n')),
  priv('    void accept() {\n' + CPQ + '    }\n    void reject() {\n' + CPT + '    }\n    void enter_state() {\n        accept();\n        tentative_step();\n    }\n'), (EXT, EXT.replace(CPT, '        reject();\n').replace(CPQ16, '                accept();\n').replace(CPT12, '            reject();\n')))
c('copy_n', (INT, INT.replace(CPQ, '        std::copy_n(q_trial, sys->numVars(), q);\n')), (CONF, CONF.replace(CPQ, '        std::copy_n(q_trial, sys->numVars(), q);\n')), (EXT, EXT.replace(CPT, '        std::copy_n(q, sys->numVars(), q_trial);\n')), ('#include <algorithm>\n', '#include <algorithm>\n#include <iterator>\n'))
c('lambda-copy', (EXT, EXT.replace('        bool state_event_exists = false;\n', '        auto copy = [this](double const* from, double* to) {\n            for (int i = 0; i < sys->numVars(); i++) {\n                to[i] = from[i];\n            }\n        };\n        bool state_event_exists = false;\n', 1).replace(CPT, '        copy(q, q_trial);\n').replace(CPQ16, '                copy(q_trial, q);\n').replace(CPT12, '            copy(q, q_trial);\n')))
c('n-local', (EXT, EXT.replace('        bool state_event_exists = false;\n', '        int const n = sys->numVars();\n        bool state_event_exists = false;\n', 1).replace('i < sys->numVars()', 'i < n').replace('i++', '++i')))
c('ext-missed-fn', (EXT, EXT.replace('        bool state_event_exists = false;\n        event_happened = true;\n', '        event_happened = true;\n        bool const state_event_exists = event_exists && missed(e, xb);\n').replace(EXT[EXT.index('        // Check that we have not missed'):EXT.index('        if (!state_event_exists)')], '')),
  priv('''    bool missed(TimeType e, std::list<adevs::PinValue<ValueType>> const &xb) {
        for (int i = 0; i < sys->numVars(); i++) {
            q_trial[i] = q[i];
        }
        solver->advance(q_trial, e);
        double h = e;
        if (!event_finder->find_events(event, q, q_trial, solver, h)) {
            return false;
        }
        event[sys->numEvents()] = false;
        output_func(missedOutput);
        sys->confluent_event(q_trial, event, xb);
        for (int i = 0; i < sys->numVars(); i++) {
            q[i] = q_trial[i];
        }
        return true;
    }
'''))
c('ext-elapsed', (EXT, EXT.replace('sys->external_event(q, e + e_accum, xb);', 'double const elapsed = e_accum + e;\n            sys->external_event(q, elapsed, xb);')))
c('ext-accum-add', (EXT, EXT.replace('            sys->external_event(q, e + e_accum, xb);\n', '            e_accum += e;\n            sys->external_event(q, e_accum, xb);\n')))
c('int-guard', (INT, INT.replace('        if (!missedOutput.empty()) {\n            missedOutput.clear();\n            if (sigma > 0.0) {\n                return;\n            }\n        }\n', '        const bool announced = !missedOutput.empty();\n        missedOutput.clear();\n        if (announced && sigma > 0.0) {\n            return;\n        }\n')))
c('int-accum-else', (INT, INT.replace('        e_accum += ta();\n', '').replace('            sys->internal_event(q_trial, event);\n            e_accum = 0.0;\n        }\n', '            sys->internal_event(q_trial, event);\n            e_accum = 0.0;\n        } else {\n            e_accum += sigma;\n        }\n')))
c('int-happened', (INT, INT.replace('        event_happened = event_exists;\n', '').replace('        // Copy the new', '        event_happened = event_exists;\n        // Copy the new')))
c('int-if-happened', (INT, INT.replace('        if (event_exists)  // Execute', '        if (event_happened)  // Execute')))
c('conf-elapsed', (CONF, CONF.replace('            sys->external_event(q_trial, e_accum + ta(), xb);', '            const TimeType elapsed = ta() + e_accum;\n            sys->external_event(q_trial, elapsed, xb);')))
c('conf-not', (CONF, CONF.replace('''        if (event_exists) {
            sys->confluent_event(q_trial, event, xb);
        } else {
            sys->external_event(q_trial, e_accum + ta(), xb);
        }
''', '''        if (!event_exists) {
            sys->external_event(q_trial, e_accum + ta(), xb);
        } else {
            sys->confluent_event(q_trial, event, xb);
        }
''')))
c('out-insert', (OUT, OUT.replace('            for (auto iter : missedOutput) {\n                yb.push_back(iter);\n            }\n', '            yb.insert(yb.end(), missedOutput.begin(), missedOutput.end());\n')))
c('out-nested', (OUT, '''    void output_func(std::list<adevs::PinValue<ValueType>> &yb) {
        const bool missed = !missedOutput.empty();
        if (missed) {
            std::copy(missedOutput.begin(), missedOutput.end(), std::back_inserter(yb));
        } else {
            sys->postStep(q_trial);
        }
        if (missed ? sigma == 0.0 : event_exists) {
            sys->output_func(q_trial, event, yb);
        }
    }
'''), ('#include <algorithm>\n', '#include <algorithm>\n#include <iterator>\n'))
c('out-return', (OUT, '''    void output_func(std::list<adevs::PinValue<ValueType>> &yb) {
        if (missedOutput.empty()) {
            sys->postStep(q_trial);
            if (!event_exists) {
                return;
            }
            sys->output_func(q_trial, event, yb);
            return;
        }
        for (auto const &value : missedOutput) {
            yb.push_back(value);
        }
        if (sigma == 0.0) {
            sys->output_func(q_trial, event, yb);
        }
    }
'''))
c('ta-cond', (TA, '    TimeType ta() {\n        return missedOutput.empty() ? TimeType(sigma) : TimeType(0.0);\n    }\n'))
c('ta-size', (TA, '    TimeType ta() {\n        if (missedOutput.size() > 0) {\n            return 0.0;\n        }\n        return sigma;\n    }\n'))
c('ten-time', (TEN, '''    void tentative_step() {
        int const time_flag = sys->numEvents();
        double const time_event = sys->time_event_func(q);
        double step_size = solver->integrate(q_trial, time_event);
        bool const state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);
        sigma = (time_event < step_size) ? time_event : step_size;
        bool const time_event_exists = (time_event <= sigma);
        event[time_flag] = time_event_exists;
        event_exists = state_event_exists || time_event_exists;
        sys->postTrialStep(q);
    }
'''))
c('ten-split', (TEN, '''    void tentative_step() {
        plan(sys->time_event_func(q));
        sys->postTrialStep(q);
    }
    void plan(double time_event) {
        sigma = solver->integrate(q_trial, time_event);
        event_exists = event_finder->find_events(event, q, q_trial, solver, sigma);
        if (time_event < sigma) {
            sigma = time_event;
        }
        event[sys->numEvents()] = (time_event <= sigma);
        event_exists = event_exists || event[sys->numEvents()];
    }
'''))
c('ten-or', (TEN, TEN.replace('        event_exists = event[sys->numEvents()] || state_event_exists;\n', '        event_exists = state_event_exists;\n        if (event[sys->numEvents()]) {\n            event_exists = true;\n        }\n')))
c('ten-std', (TEN, TEN.replace('std::min<double>(step_size, time_event)', 'std::min(time_event, step_size)')))
c('ctor-inits', (CTOR, CTOR.replace('sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {\n        q = new double[sys->numVars()];\n        q_trial = new double[sys->numVars()];\n        event = new bool[sys->numEvents() + 1];\n', 'sys(sys),\n          solver(solver),\n          event_finder(event_finder),\n          sigma(0.0),\n          q(new double[sys->numVars()]),\n          q_trial(new double[sys->numVars()]),\n          event(new bool[sys->numEvents() + 1]),\n          event_exists(false),\n          event_happened(false),\n          e_accum(0.0) {\n').replace('        event_exists = event_happened = false;\n', '')))
c('ctor-flags', (CTOR, CTOR.replace('        for (int i = 0; i <= sys->numEvents(); i++) {\n            event[i] = false;\n        }\n', '        const int flags = sys->numEvents() + 1;\n        std::fill(event, event + flags, false);\n')))
c('ctor-both', (CTOR, CTOR.replace('        sys->init(q_trial);  // Get the initial state of the model\n        for (int i = 0; i < sys->numVars(); i++) {\n            q[i] = q_trial[i];\n        }\n', '        sys->init(q);\n        for (int i = sys->numVars() - 1; i >= 0; i--) {\n            q_trial[i] = q[i];\n        }\n')))
c('dtor-order', (fn('    ~Hybrid() {'), '    ~Hybrid() {\n        delete solver;\n        delete event_finder;\n        delete sys;\n        delete[] event;\n        delete[] q_trial;\n        delete[] q;\n    }\n'))
c('vectors', ('double *q, *q_trial;                     // Current', 'double *q, *q_trial;   // Current')) if False else None
CASES = [x for x in CASES if x]
def allsub(*subs):
    s = SRC
    for a, b in subs:
        assert a in s, a
        s = s.replace(a, b)
    return s
VEC = allsub(('        delete[] q;\n        delete[] q_trial;\n', ''), ('    double *q, *q_trial;                     // Current and tentative states\n', '    std::vector<double> q, q_trial;\n'),
  ('        q = new double[sys->numVars()];\n        q_trial = new double[sys->numVars()];\n', '        q.resize(sys->numVars());\n        q_trial.resize(sys->numVars());\n'),
  ('(q_trial,', '(q_trial.data(),'), ('(q, e', '(q.data(), e'), ('sys->init(q_trial)', 'sys->init(q_trial.data())'), ('find_events(event, q, q_trial,', 'find_events(event, q.data(), q_trial.data(),'),
  ('postStep(q_trial)', 'postStep(q_trial.data())'), ('postStep(q)', 'postStep(q.data())'), ('time_event_func(q)', 'time_event_func(q.data())'), ('postTrialStep(q)', 'postTrialStep(q.data())'),
  ('    double const* getState() const { return q; }', '    double const* getState() const { return q.data(); }'), ('#include <algorithm>\n', '#include <algorithm>\n#include <vector>\n'))
CASES.append(('vector', '', [(H, SRC, VEC)]))
UP = allsub(('        delete[] q;\n        delete[] q_trial;\n', ''), ('    double *q, *q_trial;                     // Current and tentative states\n', '    std::unique_ptr<double[]> q, q_trial;\n'),
  ('        q = new double[sys->numVars()];\n        q_trial = new double[sys->numVars()];\n', '        q.reset(new double[sys->numVars()]);\n        q_trial = std::make_unique<double[]>(sys->numVars());\n'),
  ('(q_trial,', '(q_trial.get(),'), ('(q, e', '(q.get(), e'), ('sys->init(q_trial)', 'sys->init(q_trial.get())'), ('find_events(event, q, q_trial,', 'find_events(event, q.get(), q_trial.get(),'),
  ('postStep(q_trial)', 'postStep(q_trial.get())'), ('postStep(q)', 'postStep(q.get())'), ('time_event_func(q)', 'time_event_func(q.get())'), ('postTrialStep(q)', 'postTrialStep(q.get())'),
  ('    double const* getState() const { return q; }', '    double const* getState() const { return q.get(); }'), ('#include <algorithm>\n', '#include <algorithm>\n#include <memory>\n'))
CASES.append(('unique', '', [(H, SRC, UP)]))
UO = allsub(('        delete event_finder;\n        delete solver;\n        delete sys;\n', ''), ('    ode_system<ValueType>* sys;              // The ODE system\n    ode_solver<ValueType>* solver;           // Integrator for the ode set\n    event_locator<ValueType>* event_finder;  // Event locator\n',
 '    std::unique_ptr<ode_system<ValueType>> sys;\n    std::unique_ptr<ode_solver<ValueType>> solver;\n    std::unique_ptr<event_locator<ValueType>> event_finder;\n'), ('solver, h)', 'solver.get(), h)'), ('solver, step_size)', 'solver.get(), step_size)'), ('getSystem() { return sys; }', 'getSystem() { return sys.get(); }'), ('#include <algorithm>\n', '#include <algorithm>\n#include <memory>\n'))
CASES.append(('unique-owned', '', [(H, SRC, UO)]))
