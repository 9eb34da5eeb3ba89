import subprocess
T = 'include/adevs/time.h'
MO = 'include/adevs/models.h'
C = 'src/adevs.cpp'
CV = 'include/adevs/solvers/cvode.h'
FM = 'include/adevs/solvers/fmi.h'
RULES = ['T01', 'T02', 'T03', 'C01', 'F01', 'R01', 'R02', 'R03']
SRC = {f: subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True).stdout for f in (T, MO, C, CV, FM)}
CASES = []
def body(f, start):
    k = SRC[f].index(start); i = SRC[f].index('{\n', k) + 2; j = SRC[f].index('\n}\n', i) + 1
    return SRC[f][i:j]
def whole(f, start, new):
    k = SRC[f].index(start); i = SRC[f].index('{\n', k) + 2
    return (f, SRC[f][k:i] + body(f, start), SRC[f][k:i] + new)
def c(cid, *eds):
    CASES.append((cid, '', list(eds)))
def sub(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
def t(cid, *prs):
    c(cid, *[(T, a, b) for a, b in prs])
LT = 'bool operator<(sd_time const &t2) const { return (t < t2.t || (t == t2.t && k < t2.k)); }'
PLUS = '''        if (t2.t == 0) {
            k += t2.k;
        } else {
            t += t2.t;
            k = t2.k;
        }
'''
MINUS = '''        if (t == t2.t) {
            t = 0;
            k -= t2.k;
        } else {
            t -= t2.t;
        }
'''
t('lt-tie', ('#include <limits>\n', '#include <limits>\n#include <tuple>\n'), (LT, 'bool operator<(sd_time const &t2) const { return std::tie(t, k) < std::tie(t2.t, t2.k); }'))
t('lt-pair', ('#include <limits>\n', '#include <limits>\n#include <utility>\n'), (LT, 'bool operator<(sd_time const &t2) const { return std::make_pair(t, k) < std::make_pair(t2.t, t2.k); }'))
t('lt-same', (LT, '''bool operator<(sd_time const &t2) const {
        bool const same = (t == t2.t);
        return same ? (k < t2.k) : (t < t2.t);
    }'''))
t('lt-friend', (LT, 'bool operator<(sd_time const &t2) const { return before(*this, t2); }\n    static bool before(sd_time const &a, sd_time const &b) { return a.t < b.t || (a.t == b.t && a.k < b.k); }'))
t('lt-swap', (LT, 'bool operator<(sd_time const &t2) const {\n        if (t2.t < t) {\n            return false;\n        }\n        if (t < t2.t) {\n            return true;\n        }\n        return k < t2.k;\n    }'))
t('lt-demorgan', (LT, 'bool operator<(sd_time const &t2) const { return !(t > t2.t) && (t != t2.t || k < t2.k); }'))
t('le-lex', ('return (*this == t2 || *this < t2);', 'return (t < t2.t || (t == t2.t && k <= t2.k));'))
t('gt-lex', ('return !(*this <= t2);', 'return t > t2.t || (t == t2.t && k > t2.k);'))
t('ge-lex', ('bool operator>=(sd_time const &t2) const { return !(*this < t2); }', 'bool operator>=(sd_time const &t2) const { return t2 <= *this; }'))
t('ge-or', ('bool operator>=(sd_time const &t2) const { return !(*this < t2); }', 'bool operator>=(sd_time const &t2) const { return *this > t2 || *this == t2; }'))
t('ne-or', ('bool operator!=(sd_time const &t2) const { return !(*this == t2); }', 'bool operator!=(sd_time const &t2) const { return t != t2.t || k != t2.k; }'))
t('eq-ne', ('bool operator==(sd_time const &t2) const { return (t == t2.t && k == t2.k); }', 'bool operator==(sd_time const &t2) const {\n        if (k != t2.k) {\n            return false;\n        }\n        return t == t2.t;\n    }'))
t('eq-diff', ('bool operator==(sd_time const &t2) const { return (t == t2.t && k == t2.k); }', 'bool operator==(sd_time const &t2) const { return !(t < t2.t) && !(t2.t < t) && k == t2.k; }'))
t('plus-not', (PLUS, '''        if (t2.t != 0) {
            t += t2.t;
            k = 0;
        }
        k += t2.k;
'''))
t('plus-tern', (PLUS, '''        k = (t2.t == 0) ? k + t2.k : t2.k;
        t += t2.t;
'''))
t('plus-static', (PLUS, '''        *this = *this + t2;
'''), ('''        sd_time result(*this);
        result += t2;
        return result;''', '''        int const steps = (t2.t == 0) ? (k + t2.k) : t2.k;
        return sd_time(t + t2.t, steps);'''))
t('plus-chain', ('''        sd_time result(*this);
        result += t2;
        return result;''', '        return sd_time(*this) += t2;'))
t('plus-typed0', ('if (t2.t == 0) {', 'if (t2.t == TimeType(0)) {'))
t('plus-typed0b', ('if (t2.t == 0) {', 'if (t2.t == TimeType()) {'))
t('plus-static0', ('if (t2.t == 0) {', 'if (t2.t == static_cast<TimeType>(0)) {'))
t('minus-typed', (MINUS, '''        if (t == t2.t) {
            k = k - t2.k;
            t = TimeType(0);
            return *this;
        }
        t = t - t2.t;
'''))
t('minus-same', (MINUS, '''        bool const same = t == t2.t;
        t = same ? TimeType(0) : t - t2.t;
        if (same) {
            k -= t2.k;
        }
'''))
t('minus-copy', (MINUS, '''        sd_time const d = *this - t2;
        t = d.t;
        k = d.k;
'''), ('''        sd_time result(*this);
        result -= t2;
        return result;''', '''        if (t != t2.t) {
            return sd_time(t - t2.t, k);
        }
        return sd_time(0, k - t2.k);'''))
t('ctor-deleg', ('sd_time() : t(0), k(0) {}', 'sd_time() : sd_time(0, 0) {}'))
t('ctor-nsdmi', ('sd_time() : t(0), k(0) {}', 'sd_time() = default;'), ('    TimeType t;\n    int k;\n};', '    TimeType t{0};\n    int k{0};\n};'))
t('ctor-brace', ('sd_time(TimeType t, int k) : t(t), k(k) {}', 'sd_time(TimeType real_part, int int_part) : t{real_part}, k{int_part} {}'))
t('copy-body', ('sd_time(sd_time const &other) : t(other.t), k(other.k) {}', 'sd_time(sd_time const &other) { *this = other; }'))
t('copy-deleg', ('sd_time(sd_time const &other) : t(other.t), k(other.k) {}', 'sd_time(sd_time const &other) : sd_time(other.t, other.k) {}'))
t('assign-default', ('''    sd_time const &operator=(sd_time const &other) {
        t = other.t;
        k = other.k;
        return *this;
    }''', '    sd_time &operator=(sd_time const &other) = default;'))
t('assign-self', ('''        t = other.t;
        k = other.k;
        return *this;''', '''        if (this != &other) {
            t = other.t;
            k = other.k;
        }
        return *this;'''))
t('inf-braces', ('return adevs::sd_time<int>(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());', 'return {std::numeric_limits<int>::max(), std::numeric_limits<int>::max()};'))
t('inf-nest', ('return adevs::sd_time<int>(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());', 'return adevs::sd_time<int>(adevs_inf<int>(), adevs_inf<int>());'))
t('inf-local', ('return adevs::sd_time<long>(std::numeric_limits<long>::max(), std::numeric_limits<int>::max());', 'long const r = std::numeric_limits<long>::max();\n    int const i = std::numeric_limits<int>::max();\n    return adevs::sd_time<long>(r, i);'))
t('zero-default', ('return adevs::sd_time<double>(0.0, 0);', 'return adevs::sd_time<double>();'))
t('zero-braces', ('return adevs::sd_time<long>(0, 0);', 'return {};'))
t('zero-int', ('inline double adevs_zero() {\n    return 0.0;', 'inline double adevs_zero() {\n    return 0;'))
t('inf-fcmp', ('inline adevs::double_fcmp adevs_inf() {\n    return std::numeric_limits<double>::max();', 'inline adevs::double_fcmp adevs_inf() {\n    return adevs::double_fcmp(adevs_inf<double>());'))
t('sentinel-minus', ('inline double adevs_sentinel() {\n    return -1.0;', 'inline double adevs_sentinel() {\n    double const one = 1.0;\n    return -one;'))
t('constexpr', ('inline int adevs_sentinel() {\n    return -1;', 'inline int adevs_sentinel() {\n    constexpr int before_zero = -1;\n    return before_zero;'))
# double_fcmp
F = lambda op, ty='double_fcmp const &rhs', v='rhs.d', cmp=None: 'bool operator%s(%s) const { return (fcmp(d, %s, epsilon) %s 0); }' % (op, ty, v, cmp or op)
t('fc-helper', (F('<'), 'bool operator<(double_fcmp const &rhs) const { return compare(rhs.d) < 0; }'), (F('<='), 'bool operator<=(double_fcmp const &rhs) const { return compare(rhs.d) <= 0; }'),
  (F('=='), 'bool operator==(double_fcmp const &rhs) const { return compare(rhs.d) == 0; }'), ('  private:\n    double d;\n', '  private:\n    double d;\n    int compare(double x) const { return fcmp(d, x, epsilon); }\n'))
t('fc-double', (F('<', 'double rhs', 'rhs', '<'), 'bool operator<(double rhs) const { return *this < double_fcmp(rhs); }'))
t('fc-deleg', (F('<'), 'bool operator<(double_fcmp const &rhs) const { return *this < rhs.d; }'))
t('fc-not', (F('>='), 'bool operator>=(double_fcmp const &rhs) const { return !(*this < rhs); }'))
t('fc-swap', (F('>='), 'bool operator>=(double_fcmp const &rhs) const { return rhs <= *this; }'))
t('fc-le', (F('<='), 'bool operator<=(double_fcmp const &rhs) const { return *this < rhs || *this == rhs; }'))
t('fc-ne', ('bool operator!=(double_fcmp const &rhs) const { return !(*this == rhs); }', 'bool operator!=(double_fcmp const &rhs) const { return fcmp(d, rhs.d, epsilon) != 0; }'))
t('fc-plus', ('double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }', 'double_fcmp operator+(double_fcmp const &t2) const {\n        double_fcmp sum(*this);\n        sum += t2;\n        return sum;\n    }'))
t('fc-plus2', ('double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }', 'double_fcmp operator+(double_fcmp const &t2) const { return {d + t2.d}; }'))
t('fc-minus', ('        d -= t2.d;\n', '        *this = *this - t2;\n'))
t('fc-minus2', ('        d -= t2.d;\n', '        d = d - t2.d;\n'))
t('fc-conv', ('operator double() { return d; }', 'operator double() const { return this->d; }'))
t('fc-assign', ('''    double_fcmp const &operator=(double rhs) {
        d = rhs;
        return *this;''', '''    double_fcmp const &operator=(double rhs) {
        return *this = double_fcmp(rhs);'''))
fc = SRC[C]
fb = fc[fc.index('{', fc.index('double_fcmp::fcmp')):]
END = fc[fc.index('    if (difference > delta) {'):]
c('fcmp-delta1', (C, '    delta = ldexp(epsilon, exponent);\n\n    difference = x1 - x2;\n', '    delta = std::ldexp(epsilon, exponent);\n    difference = x1 - x2;\n'))
c('fcmp-bound', (C, END, '''    if (difference < -delta) {
        return -1;
    }
    if (difference <= delta) {
        return 0;
    }
    return 1;
}
'''))
c('fcmp-outer', (C, END, '''    const bool above = difference > delta;
    const bool below = -difference > delta;
    if (above == below) {
        return 0;
    }
    return above ? 1 : -1;
}
'''))
c('fcmp-abs', (C, END, '''    if (!(std::fabs(difference) > delta)) {
        return 0;
    }
    return (x1 > x2) ? 1 : -1;
}
'''))
c('fcmp-res', (C, END, '''    int result = 0;
    if (difference > delta) {
        result = 1;
    } else if (difference < -delta) {
        result = -1;
    }
    return result;
}
'''))
# pins and events
def m(cid, *prs):
    c(cid, *[(MO, a, b) for a, b in prs])
m('pin-method', ('pin_t() : id(atom++) {}', 'pin_t() : id(fresh()) {}'), ('  private:\n    static std::atomic<int> atom;', '  private:\n    static int fresh() {\n        int const mine = atom.fetch_add(1);\n        return mine;\n    }\n    static std::atomic<int> atom;'))
m('pin-acqrel', ('pin_t() : id(atom++) {}', 'pin_t() : id(atom.fetch_add(1, std::memory_order_acq_rel)) {}'))
m('pin-cas', ('pin_t() : id(atom++) {}', 'pin_t() {\n        int seen = atom.load();\n        while (!atom.compare_exchange_weak(seen, seen + 1)) {}\n        id = seen;\n    }'))
m('pin-inline', ('    static std::atomic<int> atom;\n    int id;', '    inline static std::atomic<int> atom{0};\n    int id;'))
CASES[-1][2].append((C, fc[fc.index('std::atomic<int> pin_t'):fc.index(';', fc.index('std::atomic<int> pin_t')) + 1], ''))
m('pin-le', ('bool operator<=(pin_t const &src) const { return (id <= src.id); }', 'bool operator<=(pin_t const &src) const { return !(src < *this); }'))
m('pin-gt', ('bool operator>(pin_t const &src) const { return (id > src.id); }', 'bool operator>(pin_t const &src) const { return src < *this; }'))
m('pin-cmp', ('bool operator<(pin_t const &src) const { return (id < src.id); }', 'bool operator<(pin_t const &src) const { return compare(src) < 0; }'), ('bool operator==(pin_t const &src) const { return (id == src.id); }', 'bool operator==(pin_t const &src) const { return compare(src) == 0; }'),
  ('  private:\n    static std::atomic<int> atom;', '  private:\n    int compare(pin_t const &other) const { return (id > other.id) - (id < other.id); }\n    static std::atomic<int> atom;'))
m('pin-sub', ('bool operator>=(pin_t const &src) const { return (id >= src.id); }', 'bool operator>=(pin_t const &src) const { return !(*this < src); }'))
m('pin-move', ('pin_t(pin_t const &src) : id(src.id) {}', 'pin_t(pin_t const &src) : id(src.id) {}\n    pin_t(pin_t &&src) noexcept : id(src.id) {}'))
m('pin-copybody', ('pin_t(pin_t const &src) : id(src.id) {}', 'pin_t(pin_t const &src) { id = src.id; }'))
m('pin-ret', ('    pin_t const &operator=(pin_t const &src) {\n        id = src.id;', '    pin_t &operator=(pin_t const &src) {\n        this->id = src.id;'))
# cvode
INT, CON, EXT, TAF, OUT = (body(CV, 'CVODE<ValueType>::' + x) for x in ('delta_int()', 'delta_conf(', 'delta_ext(', 'ta()', 'output_func('))
SAVE = '    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n'
PR = '  private:\n    N_Vector y_checkpoint;'
def v(cid, *eds):
    c(cid, *eds)
def W(n, new): return whole(CV, 'CVODE<ValueType>::' + n, new)
ADV = (CV, PR, '  private:\n    void commit(double now) {\n        t = now;\n        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n    }\n    N_Vector y_checkpoint;')
v('cv-commit', ADV, W('delta_int()', sub(INT, ('    t = t_projected;\n' + SAVE, '    commit(t_projected);\n'))), W('delta_conf(', sub(CON, ('    t = t_projected;\n' + SAVE, '    commit(t_projected);\n'))), W('delta_ext(', sub(EXT, (SAVE, '    commit(t);\n'))))
v('cv-out', ADV, W('delta_int()', sub(INT, ('    t = t_projected;\n' + SAVE, '    this->commit(this->t_projected);\n'))))
v('cv-early', W('delta_ext(', '''    const double start = t;
    const double now = start + e;
    this->cvode_reinit(y_checkpoint, start);
    this->cvode_integrate_until(now, has_event);
    t = now;
    if (!has_event) {
        this->cvode_delta_ext(now, xb);
    } else {
        this->cvode_delta_conf(xb);
    }
    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
'''))
v('cv-state', W('delta_int()', sub(INT, (SAVE, '    N_Vector const y = this->cvode_get_state();\n    N_VAddConst(y, 0.0, y_checkpoint);\n'))))
v('cv-guard', (CV, '    if (y_checkpoint != nullptr) {\n        N_VDestroy(y_checkpoint);\n    }\n', '    if (y_checkpoint == nullptr) {\n        return;\n    }\n    N_VDestroy(y_checkpoint);\n    y_checkpoint = nullptr;\n'))
v('cv-ensure', (CV, PR, '  private:\n    void ensure_checkpoint() {\n        if (y_checkpoint) {\n            return;\n        }\n        N_Vector y = this->cvode_get_state();\n        y_checkpoint = N_VClone(y);\n        N_VAddConst(y, 0.0, y_checkpoint);\n    }\n    N_Vector y_checkpoint;'),
  W('ta()', '    ensure_checkpoint();\n    this->cvode_integrate(t_projected, has_event);\n    double const advance = t_projected - t;\n    return advance;\n'))
v('cv-lambda', W('delta_conf(', '''    auto const handle = [&]() {
        if (has_event) {
            this->cvode_delta_conf(xb);
            return;
        }
        this->cvode_delta_ext(t_projected, xb);
    };
    handle();
    t = t_projected;
    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
'''))
v('cv-tp', W('delta_conf(', sub(CON, ('    if (has_event) {', '    const double now = t_projected;\n    if (has_event) {'), ('cvode_delta_ext(t_projected, xb)', 'cvode_delta_ext(now, xb)'), ('t = t_projected;', 't = now;'))))
v('cv-outret', W('output_func(', '    if (!has_event)\n        return;\n    this->cvode_output_func(yb);\n'))
v('cv-linear', W('delta_int()', sub(INT, (SAVE, '    N_VLinearSum(1.0, this->cvode_get_state(), 0.0, y_checkpoint, y_checkpoint);\n'))))
v('cv-clone2', W('ta()', sub(TAF, ('    if (y_checkpoint == nullptr) {\n', '    const bool first = (y_checkpoint == nullptr);\n    if (first) {\n'))))
v('cv-switch', W('delta_ext(', sub(EXT, ('''    if (has_event) {
        this->cvode_delta_conf(xb);
    } else {
        this->cvode_delta_ext(t, xb);
    }
''', '''    switch (has_event ? 1 : 0) {
        case 1:
            this->cvode_delta_conf(xb);
            break;
        default:
            this->cvode_delta_ext(t, xb);
            break;
    }
'''))))
v('cv-init', (CV, 'y_checkpoint(nullptr), has_event(false), t(0.0) {}', 'y_checkpoint(nullptr), has_event(false), t(adevs_zero<double>()), t_projected(adevs_zero<double>()) {}'))
v('cv-virtualcalls', W('delta_int()', sub(INT, ('this->cvode_delta_int()', 'cvode_delta_int()'), ('this->cvode_get_state()', 'cvode_get_state()'))))
# fmi
def f(cid, *eds):
    c(cid, *[(FM,) + e if len(e) == 2 else e for e in eds])
ENT = '''    if (!cont_time_mode) {
        status = fmi2_import_enter_continuous_time_mode(fmu);
        assert(status == fmi2_status_ok);
        cont_time_mode = true;
    }
'''
EVT = '''    if (cont_time_mode) {
        status = fmi2_import_enter_event_mode(fmu);
        assert(status == fmi2_status_ok);
        cont_time_mode = false;
    }
'''
def X(n, new): return whole(FM, 'ModelExchange<ValueType>::' + n, new)
def Bd(n): return body(FM, 'ModelExchange<ValueType>::' + n)
PRF = '  private:\n    // Reference to the FMU'
AL = ['der_func(', 'state_event_func(', 'get_jacobian(']
AE = ['internal_event(', 'external_event(', 'confluent_event(']
CHK = '    static void check(fmi2_status_t status) {\n        assert(status == fmi2_status_ok);\n        (void)status;\n    }\n'
CHT = '    static void check(fmi2_status_t status) {\n        if (status != fmi2_status_ok) {\n            throw adevs::exception("FMU call failed");\n        }\n    }\n'
def chk(b):
    import re
    b = re.sub(r'status =\s*(fmi2_import_\w+\((?:[^()]|\([^()]*\))*\));\n\s*assert\(status == fmi2_status_ok\);\n', r'check(\1);\n', b)
    b = b.replace('    fmi2_status_t status;\n', '')
    b = b.replace('    assert(status == fmi2_status_ok);\n', '')
    return b
for nm, code in (('assert', CHK), ('throw', CHT)):
    f('fm-check-' + nm, (PRF, '  private:\n' + code + '    // Reference to the FMU'), *[X(n, chk(Bd(n))) for n in AL + AE + ['iterate_events(', 'init(', 'postStep(', 'postTrialStep(']])
f('fm-modes', (PRF, '''  private:
    void set_mode(bool continuous) {
        if (cont_time_mode == continuous) {
            return;
        }
        fmi2_status_t const status = continuous ? fmi2_import_enter_continuous_time_mode(fmu)
                                                : fmi2_import_enter_event_mode(fmu);
        assert(status == fmi2_status_ok);
        (void)status;
        cont_time_mode = continuous;
    }
    // Reference to the FMU'''), *([X(n, sub(Bd(n), (ENT, '    set_mode(true);\n'))) for n in AL] + [X(n, sub(Bd(n), (EVT, '    set_mode(false);\n'))) for n in AE]))
f('fm-nstates', (PRF, '  private:\n    int num_states() const { return this->numVars() - 1; }\n    // Reference to the FMU'), *[X(n, Bd(n).replace('this->numVars() - 1', 'num_states()')) for n in AL + AE + ['init(', 'postStep(', 'postTrialStep(', 'time_event_func(']])
f('fm-timeref', X('init(', sub(Bd('init('), ('    q[this->numVars() - 1] = t_now;\n', '    double &time = q[this->numVars() - 1];\n    time = t_now;\n'))))
f('fm-point', (PRF, '''  private:
    double time_of(double const* q) const { return q[this->numVars() - 1]; }
    // Reference to the FMU'''), X('der_func(', sub(Bd('der_func('), ('q[this->numVars() - 1]);', 'time_of(q));'))), X('time_event_func(', sub(Bd('time_event_func('), ('q[this->numVars() - 1]', 'time_of(q)'))), X('postStep(', sub(Bd('postStep('), ('q[this->numVars() - 1]', 'time_of(q)'))))
f('fm-ps-event', X('postStep(', sub(Bd('postStep('), ('        next_time_event = t_now;', '        next_time_event = q[this->numVars() - 1];'))))
f('fm-ps-else', X('postStep(', sub(Bd('postStep('), ('    if (q[this->numVars() - 1] <= t_now) {\n        return;\n    }\n', '    const bool moved = t_now < q[this->numVars() - 1];\n    if (!moved) {\n        return;\n    }\n'))))
f('fm-te-early', X('time_event_func(', '''    if (!(next_time_event < adevs_inf<double>())) {
        return adevs_inf<double>();
    }
    double const now = q[this->numVars() - 1];
    return next_time_event - now;
'''))
f('fm-te-var', X('time_event_func(', '''    double left = adevs_inf<double>();
    if (next_time_event < adevs_inf<double>()) {
        left = next_time_event - q[this->numVars() - 1];
    }
    return left;
'''))
f('fm-it-needed', X('iterate_events(', sub(Bd('iterate_events('), ('    do {\n', '    bool again = false;\n    do {\n'), ('    } while (eventInfo.newDiscreteStatesNeeded);', '        again = eventInfo.newDiscreteStatesNeeded;\n    } while (again);'))))
f('fm-it-inf', X('iterate_events(', sub(Bd('iterate_events('), ('''    if (eventInfo.nextEventTimeDefined) {
        next_time_event = eventInfo.nextEventTime;
    } else {
        next_time_event = adevs_inf<double>();
    }
''', '''    if (!eventInfo.nextEventTimeDefined) {
        next_time_event = adevs_inf<double>();
        return;
    }
    next_time_event = eventInfo.nextEventTime;
'''), ('    assert(status == fmi2_status_ok);\n}', '}') if False else ('do {', 'do {'))))
f('fm-it-arg', (PRF, '''  private:
    void discrete_update(double* q) {
        iterate_events();
        fmi2_status_t status = fmi2_import_get_continuous_states(fmu, q, this->numVars() - 1);
        assert(status == fmi2_status_ok);
        (void)status;
    }
    // Reference to the FMU'''), *[X(n, EVT.join(['    fmi2_status_t status;\n', '    discrete_update(q);\n'])) for n in AE])
f('fm-dtor', ('    if (jac_col != nullptr) {\n        delete[] jac_col;\n        delete[] jac_v;\n    }\n', '    delete[] jac_v;\n    delete[] jac_col;\n'))
f('fm-dtor2', X('~ModelExchange(', '''    if (jac_col) {
        delete[] jac_col;
        delete[] jac_v;
    }
    fmi2_import_terminate(fmu);
    fmi2_import_free_instance(fmu);
    fmi2_import_destroy_dllfmu(fmu);
    fmi2_import_free(fmu);
''') if False else ('    delete[] jac_col;\n        delete[] jac_v;\n', '    delete[] jac_v;\n        delete[] jac_col;\n'))
f('fm-gv-find', X('get_variable(', sub(Bd('get_variable('), ('variable_info_t var_info = name_to_variable_map[name];', 'const auto &var_info = name_to_variable_map[name];'))))
f('fm-gv-tmpl', (PRF, '''  private:
    template <typename T, typename F>
    T fetch(F get, variable_info_t const &info) {
        T val;
        fmi2_status_t const status = get(fmu, &info.ref, 1, &val);
        assert(status == fmi2_status_ok);
        (void)status;
        return val;
    }
    // Reference to the FMU''') if False else ('    return 0;\n}', '    return std::any(0);\n}'))
f('fm-sv-else', X('set_variable(', Bd('set_variable(').replace('        return;\n', '').replace('    if (var_info.var_type == fmi2_base_type_int)', '    else if (var_info.var_type == fmi2_base_type_int)').replace('    if (var_info.var_type == fmi2_base_type_bool)', '    else if (var_info.var_type == fmi2_base_type_bool)').replace('fmi2_status_t status;', 'fmi2_status_t status = fmi2_status_ok;')))
f('fm-sv-switch', X('set_variable(', '''    fmi2_status_t status = fmi2_status_ok;
    variable_info_t var_info = name_to_variable_map[name];
    switch (var_info.var_type) {
        case fmi2_base_type_real: {
            fmi2_real_t val = std::any_cast<fmi2_real_t>(value);
            status = fmi2_import_set_real(fmu, &var_info.ref, 1, &val);
            break;
        }
        case fmi2_base_type_int: {
            fmi2_integer_t val = std::any_cast<fmi2_integer_t>(value);
            status = fmi2_import_set_integer(fmu, &var_info.ref, 1, &val);
            break;
        }
        case fmi2_base_type_bool: {
            fmi2_boolean_t val = std::any_cast<fmi2_boolean_t>(value);
            status = fmi2_import_set_boolean(fmu, &var_info.ref, 1, &val);
            break;
        }
        default:
            return;
    }
    assert(status == fmi2_status_ok);
'''))
f('fm-jac-ptr', X('get_jacobian(', sub(Bd('get_jacobian('), ('    for (fmi2_value_reference_t state_var', '    double* column = J;\n    for (fmi2_value_reference_t state_var'), ('J + state_var * (N + 1));\n        assert(status == fmi2_status_ok);\n', 'column);\n        assert(status == fmi2_status_ok);\n        column += N + 1;\n'))))
f('fm-jac-memset', X('get_jacobian(', sub(Bd('get_jacobian('), ('    for (unsigned i = 0; i < (N + 1) * (N + 1); i++) {\n        J[i] = 0.0;\n    }\n', '    std::fill_n(J, (N + 1) * (N + 1), 0.0);\n'))))
f('fm-jac-dim', X('get_jacobian(', sub(Bd('get_jacobian('), ('    unsigned const N = this->numVars() - 1;\n', '    unsigned const dim = this->numVars();\n    unsigned const N = dim - 1;\n'), ('(N + 1)', 'dim'))))
f('fm-jac-rows', X('get_jacobian(', sub(Bd('get_jacobian('), ('    for (unsigned i = 0; i < (N + 1) * (N + 1); i++) {\n        J[i] = 0.0;\n    }\n', '    for (unsigned row = 0; row <= N; row++) {\n        for (unsigned col = 0; col <= N; col++) {\n            J[row + col * (N + 1)] = 0.0;\n        }\n    }\n'))))
f('fm-jac-nest', X('get_jacobian(', sub(Bd('get_jacobian('), ('        return jac_col != nullptr;\n', '        const bool supported = (jac_col != nullptr);\n        return supported;\n'))))
f('fm-ctor-parts', (PRF, '''  private:
    void load_variables() {
        fmi2_import_variable_list_t* variable_list = fmi2_import_get_variable_list(fmu, 0);
        size_t const num_variables = fmi2_import_get_variable_list_size(variable_list);
        for (size_t i = 0; i < num_variables; ++i) {
            fmi2_import_variable_t* var = fmi2_import_get_variable(variable_list, i);
            name_to_variable_map[fmi2_import_get_variable_name(var)] = {fmi2_import_get_variable_vr(var), fmi2_import_get_variable_base_type(var)};
        }
        fmi2_import_free_variable_list(variable_list);
    }
    // Reference to the FMU'''), (SRC[FM][SRC[FM].index('    /// Load the variable list'):SRC[FM].index('    /// Setup the FMU')], '    load_variables();\n'))
f('fm-ctor-jac', (PRF, '''  private:
    void prepare_jacobian(int n) {
        jac_col = new fmi2_value_reference_t[n];
        jac_v = new double[n];
        for (int i = 0; i < n; i++) {
            jac_col[i] = n + i;
            jac_v[i] = 1.0;
        }
    }
    // Reference to the FMU'''), (SRC[FM][SRC[FM].index('        jac_col = new fmi2'):SRC[FM].index('    }\n}\n\ntemplate <typename ValueType>\nbool ModelExchange')], '        prepare_jacobian(this->numVars() - 1);\n'))
f('fm-ctor-cb', ('    callbacks.malloc = malloc;\n    callbacks.calloc = calloc;\n', '    callbacks.calloc = ::calloc;\n    callbacks.malloc = ::malloc;\n'), ('callbacks.context = 0;', 'callbacks.context = nullptr;'))
