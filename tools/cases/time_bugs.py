T = 'include/adevs/time.h'
C = 'src/adevs.cpp'
MO = 'include/adevs/models.h'
RULES = ['T01', 'T02', 'T03']
CASES = [
 ('lt-no-k', {T: [('return (t < t2.t || (t == t2.t && k < t2.k));', 'return (t < t2.t || (t == t2.t && k <= t2.k));')]}),
 ('lt-k-only', {T: [('return (t < t2.t || (t == t2.t && k < t2.k));', 'return (t < t2.t || k < t2.k);')]}),
 ('eq-t', {T: [('return (t == t2.t && k == t2.k);', 'return (t == t2.t);')]}),
 ('gt-ge', {T: [('operator>(sd_time const &t2) const { return !(*this <= t2); }', 'operator>(sd_time const &t2) const { return !(*this < t2); }')]}),
 ('plus-keep', {T: [('            k = t2.k;\n        }', '            k += t2.k;\n        }')]}),
 ('plus-always-k', {T: [('            t += t2.t;\n            k = t2.k;', '            t += t2.t;\n            k = 0;')]}),
 ('minus-k', {T: [('            t -= t2.t;\n        }', '            t -= t2.t;\n            k -= t2.k;\n        }')]}),
 ('minus-one-sided', {T: [('if (t == t2.t) {', 'if (t <= t2.t) {')]}),
 ('minus-noreset', {T: [('            t = 0;\n', '')]}),
 ('eps-long', {T: [('adevs::sd_time<long>(0, 1)', 'adevs::sd_time<long>(1, 0)')]}),
 ('sent-int', {T: [('adevs::sd_time<int>(-1, 0)', 'adevs::sd_time<int>(0, 0)')]}),
 ('sent-float', {T: [('return -1.0f;', 'return 1.0f;')]}),
 ('inf-min', {T: [('std::numeric_limits<float>::max()', 'std::numeric_limits<float>::min()')]}),
 ('inf-sd-k', {T: [('adevs::sd_time<long>(std::numeric_limits<long>::max(), std::numeric_limits<int>::max())', 'adevs::sd_time<long>(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())')]}),
 ('fcmp-minus', {T: [('return double_fcmp(d - t2.d);', 'return double_fcmp(t2.d - d);')]}),
 ('fcmp-le', {T: [('operator<=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) <= 0); }', 'operator<=(double_fcmp const &rhs) const { return d <= rhs.d; }')]}),
 ('fcmp-gt', {T: [('operator>(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) > 0); }', 'operator>(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 1 || d > rhs.d); }')]}),
 ('fcmp-ge', {T: [('operator>=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) >= 0); }', 'operator>=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) > 0); }')]}),
 ('fcmp-eqtol', {T: [('operator==(double rhs) const { return (fcmp(d, rhs, epsilon) == 0); }', 'operator==(double rhs) const { return (fcmp(d, rhs, DBL_EPSILON) == 0); }')]}),
 ('fcmp-max', {C: [('fabs(x1) > fabs(x2)', 'x1 > x2')]}, ),
 ('fcmp-smaller', {C: [('fabs(x1) > fabs(x2)', 'fabs(x1) < fabs(x2)')]}),
 ('fcmp-first', {C: [('fabs(x1) > fabs(x2) ? x1 : x2', 'x1')]}),
 ('fcmp-ge0', {C: [('difference < -delta', 'difference < delta')]}),
 ('fcmp-eqedge', {C: [('difference > delta', 'difference >= delta')]}),
 ('pin-nonatomic', {MO: [('static std::atomic<int> atom;', 'static int atom;')], C: [('std::atomic<int> pin_t::atom', 'int pin_t::atom')]}),
 ('pin-two-steps', {MO: [('pin_t() : id(atom++) {}', 'pin_t() : id(atom) { atom++; }')]}),
 ('pin-two-steps2', {MO: [('pin_t() : id(atom++) {}', 'pin_t() : id(atom.load()) { atom.store(id + 1); }')]}),
 ('pin-tls', {MO: [('static std::atomic<int> atom;', 'static thread_local std::atomic<int> atom;')], C: [('std::atomic<int> pin_t::atom', 'thread_local std::atomic<int> pin_t::atom')]}),
 ('pin-copy-new', {MO: [('pin_t(pin_t const &src) : id(src.id) {}', 'pin_t(pin_t const &src) : id(atom++) {}')]}),
 ('pin-assign', {MO: [('        id = src.id;\n', '        if (src.id > id) id = src.id;\n')]}),
 ('pin-le', {MO: [('return (id <= src.id);', 'return (id < src.id);')]}),
 ('pin-gt', {MO: [('return (id > src.id);', 'return (id < src.id);')]}),
 ('pin-short', {MO: [('    int id;\n};\n\n/**\n * @brief An event', '    short id;\n};\n\n/**\n * @brief An event')]}),
 ('pv-assign', {MO: [('        pin = src.pin;\n', '')]}),
 ('pv-swap', {MO: [('PinValue(PinValue const &src) : pin(src.pin), value(src.value) {}', 'PinValue(PinValue const &src) : value(src.value) {}')]}),
]
