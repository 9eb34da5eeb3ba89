T = 'include/adevs/time.h'
C = 'src/adevs.cpp'
MO = 'include/adevs/models.h'
RULES = ['T01', 'T02', 'T03']
CASES = [
 ('lt-if', {T: [('return (t < t2.t || (t == t2.t && k < t2.k));', 'if (t != t2.t) {\n            return t < t2.t;\n        }\n        return k < t2.k;')]}),
 ('le-direct', {T: [('return (*this == t2 || *this < t2);', 'return !(t2 < *this);')]}),
 ('gt-swap', {T: [('operator>(sd_time const &t2) const { return !(*this <= t2); }', 'operator>(sd_time const &t2) const { return t2 < *this; }')]}),
 ('cmp-helper', {T: [('    bool operator<(sd_time const &t2) const { return (t < t2.t || (t == t2.t && k < t2.k)); }', '    bool operator<(sd_time const &t2) const { return compare(t2) < 0; }\n    int compare(sd_time const &t2) const {\n        if (t < t2.t) return -1;\n        if (t2.t < t) return 1;\n        return (k > t2.k) - (k < t2.k);\n    }')]}),
 ('plus-direct', {T: [('        sd_time result(*this);\n        result += t2;\n        return result;', '        if (t2.t == 0) {\n            return sd_time(t, k + t2.k);\n        }\n        return sd_time(t + t2.t, t2.k);')]}),
 ('minus-tern', {T: [('        sd_time result(*this);\n        result -= t2;\n        return result;', '        return t == t2.t ? sd_time(0, k - t2.k) : sd_time(t - t2.t, k);')]}),
 ('minus-neg', {T: [('        if (t == t2.t) {\n            t = 0;\n            k -= t2.k;\n        } else {\n            t -= t2.t;\n        }', '        if (t == t2.t) {\n            k -= t2.k;\n        }\n        t -= t2.t;')]}),
 ('eps-var', {T: [('return adevs::sd_time<double>(0.0, 1);', 'adevs::sd_time<double> e(0.0, 1);\n    return e;')]}),
 ('inf-dbl', {T: [('inline double adevs_inf() {\n    return std::numeric_limits<double>::max();', 'inline double adevs_inf() {\n    return DBL_MAX;')]}),
 ('defaulted', {T: [('sd_time(sd_time const &other) : t(other.t), k(other.k) {}', 'sd_time(sd_time const &other) = default;')]}),
 ('fcmp-lt-gt', {T: [('operator<(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) < 0); }', 'operator<(double_fcmp const &rhs) const { return rhs > *this; }')]}),
 ('fcmp-eq-var', {T: [('operator==(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 0); }', 'operator==(double_fcmp const &rhs) const {\n        int const c = fcmp(d, rhs.d, epsilon);\n        return !(c < 0) && !(c > 0);\n    }')]}),
 ('fcmp-le-eq', {T: [('operator<=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) <= 0); }', 'operator<=(double_fcmp const &rhs) const { return fcmp(d, rhs.d, epsilon) != 1; }')]}),
 ('fcmp-ge', {C: [('fabs(x1) > fabs(x2)', 'fabs(x1) >= fabs(x2)')]}),
 ('fcmp-early', {C: [('    difference = x1 - x2;', '    if (x1 == x2) {\n        return 0;\n    }\n    difference = x1 - x2;')]}),
 ('fcmp-tern', {C: [('    if (difference > delta) {\n        return 1; /* x1 > x2 */\n    } else if (difference < -delta) {\n        return -1; /* x1 < x2 */\n    } else {       /* -delta <= difference <= delta */\n        return 0;  /* x1 == x2 */\n    }', '    if (fabs(difference) <= delta) {\n        return 0;\n    }\n    return difference > 0 ? 1 : -1;')]}),
 ('fcmp-sum', {C: [('    if (difference > delta) {\n        return 1; /* x1 > x2 */\n    } else if (difference < -delta) {\n        return -1; /* x1 < x2 */\n    } else {       /* -delta <= difference <= delta */\n        return 0;  /* x1 == x2 */\n    }', '    return (difference > delta) - (difference < -delta);')]}),
 ('fcmp-max', {C: [('x1 - x2;', 'x1 - x2; double const largest = fmax(fabs(x1), fabs(x2)); (void)largest;')]}),
 ('pin-fetch', {MO: [('pin_t() : id(atom++) {}', 'pin_t() : id(atom.fetch_add(1)) {}')]}),
 ('pin-pre', {MO: [('pin_t() : id(atom++) {}', 'pin_t() : id(++atom) {}')]}),
 ('pin-body', {MO: [('pin_t() : id(atom++) {}', 'pin_t() { id = next(); }\n    static int next() { return atom++; }')]}),
 ('pin-relaxed', {MO: [('pin_t() : id(atom++) {}', 'pin_t() : id(atom.fetch_add(1, std::memory_order_relaxed)) {}')]}),
 ('pin-default', {MO: [('pin_t(pin_t const &src) : id(src.id) {}', 'pin_t(pin_t const &src) = default;'), ('    pin_t const &operator=(pin_t const &src) {\n        id = src.id;\n        return *this;\n    }', '    pin_t &operator=(pin_t const &src) = default;')]}),
 ('pin-ne', {MO: [('return (id != src.id);', 'return !(*this == src);')]}),
 ('pin-long', {MO: [('static std::atomic<int> atom;\n    int id;', 'static std::atomic<long> atom;\n    long id;')], C: [('std::atomic<int> pin_t::atom', 'std::atomic<long> pin_t::atom')]}),
 ('pin-self', {MO: [('        id = src.id;\n', '        if (&src != this) {\n            id = src.id;\n        }\n')]}),
 ('pv-body', {MO: [('PinValue(pin_t pin, ValueType value) : pin(pin), value(value) {}', 'PinValue(pin_t pin, ValueType value) : pin(pin), value(std::move(value)) {}')]}),
]
