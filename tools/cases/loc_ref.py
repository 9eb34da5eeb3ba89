E = 'include/adevs/solvers/event_locators.h'
RULES = ['N05']
COPY = """            for (int i = 0; i < this->sys->numVars(); i++) {
                qend[i] = qstart[i];
            }
"""
BODY_OLD = """            events[i] = false;
            if (sign(z[1][i]) != sign(z[0][i])) {
                // Event at h > 0
                if (
                    // End condition when z is continuous
                    ((mode != DISCONTINUOUS) && (fabs(z[1][i]) <= err_tol)) ||
                    // End condition when z is discontinuous
                    ((mode == DISCONTINUOUS) && (h <= err_tol))) {
                    events[i] = found_event = true;
                }
                // There is an event in (0,h)
                else {
"""
def c(i, *ed):
    return (i, {E: list(ed)})
REPEAT = open('/repo/' + E).read()
_a = REPEAT.index('repeat:\n'); _b = REPEAT.index('success:\n')
_end = REPEAT.index('    return true;\n}\n', _b)
LOOP = REPEAT[_a:_end]
EVAL = """        if (p != NULL) {
            p->interpolate(qend, hg);
        } else {
            memcpy(qend, qstart, sizeof(double) * this->sys->numVars());
            solver->advance(qend, hg);
        }
        this->sys->state_event_func(qend, zf);
"""
FIN = """    h = hg;
    for (int i = 0; i < N; i++) {
        events[i] = is_sign_change(i);
    }
"""
CASES = [
 c('memcpy', (COPY, '            memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n')),
 c('memcpy8', (COPY, '            memcpy(qend, qstart, this->sys->numVars() * sizeof(*qend));\n')),
 c('stdcopy', (COPY, '            std::copy(qstart, qstart + this->sys->numVars(), qend);\n')),
 c('copyback', (COPY, '            for (int i = this->sys->numVars() - 1; i >= 0; i--) {\n                qend[i] = qstart[i];\n            }\n')),
 c('copywhile', (COPY, '            int k = 0;\n            while (k < this->sys->numVars()) {\n                qend[k] = qstart[k];\n                k++;\n            }\n')),
 c('copyhelper', (COPY, '            restart(qstart, qend);\n'), ('    int sign(double x) const {', '    void restart(double const* from, double* to) const {\n        int const n = this->sys->numVars();\n        for (int i = 0; i < n; i++) {\n            to[i] = from[i];\n        }\n    }\n\n    int sign(double x) const {')),
 c('half', ('h /= 2.0;', 'h *= 0.5;')),
 c('half2', ('h /= 2.0;', 'h = h / 2.0;')),
 c('half-tern', ("""            if (mode == BISECTION || mode == DISCONTINUOUS) {
                h /= 2.0;
            } else {
                h = tguess;
            }
""", "            h = (mode == INTERPOLATE) ? tguess : 0.5 * h;\n")),
 c('sign-tern', ("""        if (x < 0.0) {
            return -1;
        } else if (x > 0.0) {
            return 1;
        } else {
            return 0;
        }
""", "        return (x > 0.0) - (x < 0.0);\n")),
 c('sign-tern2', ("""        if (x < 0.0) {
            return -1;
        } else if (x > 0.0) {
            return 1;
        } else {
            return 0;
        }
""", "        return (x < 0.0) ? -1 : ((x > 0.0) ? 1 : 0);\n")),
 c('flags-first', ('            events[i] = false;\n', ''), ('        this->sys->state_event_func(qend, z[1]);\n', '        this->sys->state_event_func(qend, z[1]);\n        for (int i = 0; i < this->sys->numEvents(); i++) {\n            events[i] = false;\n        }\n')),
 c('flags-memset', ('            events[i] = false;\n', ''), ('        this->sys->state_event_func(qend, z[1]);\n', '        this->sys->state_event_func(qend, z[1]);\n        memset(events, 0, sizeof(bool) * this->sys->numEvents());\n')),
 c('flags-fill', ('            events[i] = false;\n', ''), ('        this->sys->state_event_func(qend, z[1]);\n', '        this->sys->state_event_func(qend, z[1]);\n        std::fill(events, events + this->sys->numEvents(), false);\n')),
 c('named', (BODY_OLD, """            bool const crossed = sign(z[1][i]) != sign(z[0][i]);
            bool const close = (mode != DISCONTINUOUS) ? (fabs(z[1][i]) <= err_tol) : (h <= err_tol);
            events[i] = crossed && close;
            if (crossed) {
                if (close) {
                    found_event = true;
                } else {
""")),
 c('early-continue', ("            if (sign(z[1][i]) != sign(z[0][i])) {\n                // Event", "            if (sign(z[1][i]) == sign(z[0][i])) {\n                continue;\n            }\n            {\n                // Event")),
 c('locals', ('        for (int i = 0; i < this->sys->numEvents(); i++) {\n            events[i] = false;', '        double const* z0 = z[0];\n        double const* z1 = z[1];\n        int const n = this->sys->numEvents();\n        for (int i = 0; i < n; i++) {\n            events[i] = false;'),
   ('if (sign(z[1][i]) != sign(z[0][i]))', 'if (sign(z1[i]) != sign(z0[i]))')),
 c('close-helper', ("""                if (
                    // End condition when z is continuous
                    ((mode != DISCONTINUOUS) && (fabs(z[1][i]) <= err_tol)) ||
                    // End condition when z is discontinuous
                    ((mode == DISCONTINUOUS) && (h <= err_tol))) {
""", "                if (close_enough(z[1][i], h)) {\n"), ('    int sign(double x) const {', '    bool close_enough(double zi, double step) const {\n        return (mode == DISCONTINUOUS) ? (step <= err_tol) : (fabs(zi) <= err_tol);\n    }\n\n    int sign(double x) const {')),
 c('tclamp', ("""                        if (tcandidate < h / 4.0) {
                            tcandidate = h / 4.0;
                        }
                        if (tcandidate < tguess) {
                            tguess = tcandidate;
                        }
""", "                        tguess = std::min(tguess, std::max(tcandidate, h / 4.0));\n")),
 c('tfmin', ("""                        if (tcandidate < h / 4.0) {
                            tcandidate = h / 4.0;
                        }
                        if (tcandidate < tguess) {
                            tguess = tcandidate;
                        }
""", "                        tguess = fmin(tguess, fmax(tcandidate, 0.25 * h));\n")),
 c('retearly', ("        // Guess at a new h and calculate qend for that time\n        if (event_in_interval) {", "        if (!event_in_interval) {\n            return found_event;\n        }\n        {"), ("""        } else {
            return found_event;
        }
    }
    // Will never""", """        }
    }
    // Will never""")),
 c('count', ('bool event_in_interval = false, found_event = false;', 'bool event_in_interval = false;\n        int found_event = 0;'), ('events[i] = found_event = true;', 'events[i] = true;\n                    found_event++;'), ('return found_event;', 'return found_event > 0;')),
 c('while-true', ('    while (this->sys->numEvents() > 0) {', '    if (this->sys->numEvents() <= 0) {\n        return false;\n    }\n    for (;;) {')),
 # fast
 c('f-copyloop', ('        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n', '        for (int i = 0; i < this->sys->numVars(); i++) {\n            qend[i] = qstart[i];\n        }\n')),
 c('f-copystd', ('        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n', '        std::copy_n(qstart, this->sys->numVars(), qend);\n')),
 c('f-copybytes', ('sizeof(double) * this->sys->numVars()', '8 * this->sys->numVars()')),
 c('f-mid', ('hg = (hh + hl) / 2.0;', 'hg = hl + 0.5 * (hh - hl);')),
 c('f-mid2', ('hg = (hh + hl) / 2.0;', 'hg = 0.5 * (hl + hh);')),
 c('f-clear-loop', ('        memset(events, 0, sizeof(bool) * N);\n', '        for (int i = 0; i < N; i++) {\n            events[i] = false;\n        }\n')),
 c('f-clear-fill', ('        memset(events, 0, sizeof(bool) * N);\n', '        std::fill(events, events + N, false);\n')),
 c('f-tern', ('events[i] = is_sign_change(i);', 'events[i] = is_sign_change(i) ? true : false;')),
 c('f-if', ('        events[i] = is_sign_change(i);\n', '        if (is_sign_change(i)) {\n            events[i] = true;\n        } else {\n            events[i] = false;\n        }\n')),
 c('f-if2', ('        events[i] = is_sign_change(i);\n', '        events[i] = false;\n        if (is_sign_change(i)) {\n            events[i] = true;\n        }\n')),
 c('f-inline', ('        events[i] = is_sign_change(i);\n', '        events[i] = z0[i] * zf[i] <= 0.0;\n')),
 c('f-any', ("""    for (int i = 0; i < this->sys->numEvents(); i++) {
        if (is_sign_change(i)) {
            return true;
        }
    }
    return false;
""", """    bool any = false;
    for (int i = 0; i < this->sys->numEvents(); i++) {
        if (is_sign_change(i)) {
            any = true;
        }
    }
    return any;
""")),
 c('f-any-or', ("""    for (int i = 0; i < this->sys->numEvents(); i++) {
        if (is_sign_change(i)) {
            return true;
        }
    }
    return false;
""", """    bool any = false;
    for (int i = 0; i < this->sys->numEvents() && !any; i++) {
        any = is_sign_change(i);
    }
    return any;
""")),
 c('f-any-while', ("""    for (int i = 0; i < this->sys->numEvents(); i++) {
        if (is_sign_change(i)) {
            return true;
        }
    }
    return false;
""", """    int i = 0;
    while (i < this->sys->numEvents() && !is_sign_change(i)) {
        i++;
    }
    return i < this->sys->numEvents();
""")),
 c('f-sign-form', ('return z0[i] * zf[i] <= 0.0;', 'return !(z0[i] * zf[i] > 0.0);')),
 c('f-sign-cases', ('return z0[i] * zf[i] <= 0.0;', 'return (z0[i] <= 0.0 && zf[i] >= 0.0) || (z0[i] >= 0.0 && zf[i] <= 0.0);')),
 c('f-for', (LOOP, """    for (;;) {
        assert(hh >= hl);
        if (sign_change) {
            if (hh - hl < err_tol) {
                break;
            }
            hh = hg;
        } else {
            hl = hg;
        }
        hg = (hh + hl) / 2.0;
""" + EVAL + """        sign_change = is_sign_change();
    }
""" + FIN)),
 c('f-while', (LOOP, """    while (!sign_change || hh - hl >= err_tol) {
        if (sign_change) {
            hh = hg;
        } else {
            hl = hg;
        }
        hg = (hh + hl) / 2.0;
""" + EVAL + """        sign_change = is_sign_change();
    }
""" + FIN)),
 c('f-do', (LOOP, """    while (true) {
        if (is_sign_change()) {
            if (hh - hl < err_tol) {
                break;
            }
            hh = hg;
        } else {
            hl = hg;
        }
        hg = (hh + hl) / 2.0;
""" + EVAL + """    }
""" + FIN)),
 c('f-trial-helper', ("""    if (p != NULL) {
        p->interpolate(qend, hg);
    } else {
        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());
        solver->advance(qend, hg);
    }
    // Calculate state event functions at new guess
    this->sys->state_event_func(qend, zf);
""", "    trial(qstart, qend, solver, hg);\n"), ('    bool is_sign_change() const;\n', """    bool is_sign_change() const;
    void trial(double const* qstart, double* qend, ode_solver<ValueType>* solver, double t) {
        if (p != NULL) {
            p->interpolate(qend, t);
        } else {
            memcpy(qend, qstart, sizeof(double) * this->sys->numVars());
            solver->advance(qend, t);
        }
        this->sys->state_event_func(qend, zf);
    }
""")),
 c('f-flag-helper', ("""    for (int i = 0; i < N; i++) {
        events[i] = is_sign_change(i);
    }
""", "    mark(events);\n"), ('    bool is_sign_change() const;\n', """    bool is_sign_change() const;
    void mark(bool* events) const {
        for (int i = 0; i < this->sys->numEvents(); i++) {
            events[i] = is_sign_change(i);
        }
    }
""")),
 c('f-nohg', ('    double hl = 0.0, hh = h, hg = hh;\n', '    double hl = 0.0;\n    double hh = h;\n    double hg = h;\n')),
 c('f-h-updated', (LOOP, LOOP.replace('hg = (hh + hl) / 2.0;', 'hg = (hh + hl) / 2.0;\n    h = hg;').replace('    h = hg;\n    for', '    for'))),
 c('f-split-decl', ('    bool sign_change;\n', ''), ('    sign_change = is_sign_change();\n    // No event?', '    bool sign_change = is_sign_change();\n    // No event?'), ('    sign_change = is_sign_change();\n    // Try', '    sign_change = is_sign_change();\n    // Try')),
 c('f-reorder', ('    this->sys->state_event_func(qstart, z0);\n    this->sys->state_event_func(qend, zf);\n', '    this->sys->state_event_func(qend, zf);\n    this->sys->state_event_func(qstart, z0);\n')),
 c('f-spline-late', ("""    if (p != NULL) {
        this->sys->der_func(qstart, dq0);
        this->sys->der_func(qend, dqh);
        p->init""", """    if (p != NULL) {
        this->sys->der_func(qend, dqh);
        this->sys->der_func(qstart, dq0);
        p->init""")),
]
