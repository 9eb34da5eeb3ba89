R = 'include/adevs/solvers/rk_45.h'
E = 'include/adevs/solvers/corrected_euler.h'
TR = 'include/adevs/solvers/trap.h'
SP = 'include/adevs/solvers/spline.h'
RULES = ['N01', 'N02', 'N03', 'N04']
COPY = """        for (int i = 0; i < this->sys->numVars(); i++) {
            qq[i] = q[i];
        }
"""
ADV = """    double dt;
    while ((dt = integrate(q, h)) < h) {
        h -= dt;
    }
"""
CASES = [
 ('rk-merge', {R: [("""        k[0][j] = step * dq[j];
    }
    // Compute k2
    for (int j = 0; j < this->sys->numVars(); j++) {
        t[j]""", """        k[0][j] = step * dq[j];
        t[j]""")]}),
 ('rk-helper', {R: [("""    for (int j = 0; j < this->sys->numVars(); j++) {
        k[0][j] = step * dq[j];
    }""", """    scale_stage(0, step);"""), ("    // Compute a trial step of size h, store", """    void scale_stage(int s, double step) {
        for (int j = 0; j < this->sys->numVars(); j++) {
            k[s][j] = step * dq[j];
        }
    }
    // Compute a trial step of size h, store"""), ("""    for (int j = 0; j < this->sys->numVars(); j++) {
        k[4][j] = step * dq[j];
    }""", """    scale_stage(4, step);""")]}),
 ('rk-if-max', {R: [('        err = std::max(err, fabs(', '        double e = (fabs('), ('125.0 * k[5][j] / 336.0));', '125.0 * k[5][j] / 336.0));\n        if (e > err) {\n            err = e;\n        }')]}),
 ('rk-if-max2', {R: [('        err = std::max(err, fabs(', '        double const e = (fabs('), ('125.0 * k[5][j] / 336.0));', '125.0 * k[5][j] / 336.0));\n        err = (err < e) ? e : err;')]}),
 ('rk-maxswap', {R: [('        err = std::max(err, fabs(', '        err = std::max<double>(fabs('), ('125.0 * k[5][j] / 336.0));', '125.0 * k[5][j] / 336.0), err);')]}),
 ('rk-nvar', {R: [('double rk_45<ValueType>::trial_step(double step) {\n', 'double rk_45<ValueType>::trial_step(double step) {\n    int const N = this->sys->numVars();\n'), ("""    for (int j = 0; j < this->sys->numVars(); j++) {
        t[j] = qq[j] - k[1][j]""", """    for (int j = 0; j < N; ++j) {
        t[j] = qq[j] - k[1][j]"""), ("""    for (int j = 0; j < this->sys->numVars(); j++) {
        // Next state""", """    for (int j = N - 1; j >= 0; j--) {
        // Next state""")]}),
 ('rk-split-final', {R: [("""                 (125.0 / 336.0) * k[5][j];
""", """                 (125.0 / 336.0) * k[5][j];
    }
    for (int j = 0; j < this->sys->numVars(); j++) {
""")]}),
 ('rk-err-local', {R: [('        err = std::max(err, fabs(k[0][j] / 8.0', '        double const diff = (k[0][j] / 8.0'), ('125.0 * k[5][j] / 336.0));', '125.0 * k[5][j] / 336.0);\n        err = std::max(err, fabs(diff));')]}),
 ('rk-err-sol', {R: [('        err = std::max(err, fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -', '        double const x = (k[0][j] / 6.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 6.0);\n        double const yv = (1.0 / 24.0) * k[0][j] + (5.0 / 48.0) * k[3][j] + (27.0 / 56.0) * k[4][j] + (125.0 / 336.0) * k[5][j];\n        err = std::max(err, fabs(x - yv)); '), ('27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0));', '')]}),
 ('rk-ptr', {R: [("""    for (int j = 0; j < this->sys->numVars(); j++) {
        k[3][j] = step * dq[j];
    }""", """    double* k4 = k[3];
    for (int j = 0; j < this->sys->numVars(); j++) {
        k4[j] = step * dq[j];
    }""")]}),
 ('rk-memcpy', {R: [(COPY, "        std::memcpy(qq, q, sizeof(double) * this->sys->numVars());\n"), ('#include <cmath>', '#include <cmath>\n#include <cstring>')]}),
 ('rk-stdcopy', {R: [(COPY, "        std::copy(q, q + this->sys->numVars(), qq);\n")]}),
 ('rk-while', {R: [("""    for (;;) {
        // Copy""", """    while (true) {
        // Copy""")]}),
 ('rk-accept-inv', {R: [("""        if (err <= err_tol) {
            if (h_cur <= h_lim) {
                h_cur = h;
            }
            break;
        }
        // Otherwise shrink the step size and try again
        else {
            double h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
            if (h < h_guess) {
                h *= 0.8;
            } else {
                h = h_guess;
            }
        }
    }
""", """        if (err > err_tol) {
            double const h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
            h = (h < h_guess) ? 0.8 * h : h_guess;
            continue;
        }
        if (h_cur <= h_lim) {
            h_cur = h;
        }
        break;
    }
""")]}),
 ('rk-accept-ret', {R: [("""            if (h_cur <= h_lim) {
                h_cur = h;
            }
            break;
""", """            if (h_cur <= h_lim) {
                h_cur = h;
            }
            for (int i = 0; i < this->sys->numVars(); i++) {
                q[i] = qq[i];
            }
            return h;
""")]}),
 ('rk-limits-if', {R: [('double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));', 'double err = DBL_MAX;\n    double h = h_cur * 1.1;\n    if (h > h_max) {\n        h = h_max;\n    }\n    if (h_lim < h) {\n        h = h_lim;\n    }')]}),
 ('rk-limits-init', {R: [('std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim))', 'std::min({h_cur * 1.1, h_max, h_lim})')]}),
 ('rk-limits-ternary', {R: [('double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));', 'double const cap = (h_max < h_lim) ? h_max : h_lim;\n    double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, cap);')]}),
 ('rk-advance-do', {R: [(ADV, """    double dt = integrate(q, h);
    while (dt < h) {
        h -= dt;
        dt = integrate(q, h);
    }
""")]}),
 ('rk-advance-for', {R: [(ADV, """    for (;;) {
        double const dt = integrate(q, h);
        if (dt >= h) {
            return;
        }
        h = h - dt;
    }
""")]}),
 ('rk-advance-rec', {R: [(ADV, """    double const dt = integrate(q, h);
    if (dt < h) {
        advance(q, h - dt);
    }
""")]}),
 ('rk-shrink-half', {R: [('h *= 0.8;\n', 'h *= 0.5;\n')]}),
 ('rk-shrink-min', {R: [("""            if (h < h_guess) {
                h *= 0.8;
            } else {
                h = h_guess;
            }
""", """            h = std::min(h_guess, h * 0.8);
""")]}),
 ('rk-fabs-drop', {R: [('/ fabs(err), 0.25)', '/ err, 0.25)')]}),
 ('rk-fn-copy', {R: [(COPY, "        begin_trial(q);\n"), ("    // Compute a trial step of size h, store", """    void begin_trial(double const* q) {
        for (int i = 0; i < this->sys->numVars(); i++) {
            qq[i] = q[i];
        }
    }
    // Compute a trial step of size h, store""")]}),
 ('ce-merge', {E: [("""        k[0][j] = step * dq[j];
    }
    // Compute k2
    for (j = 0; j < this->sys->numVars(); j++) {
        t[j]""", """        k[0][j] = step * dq[j];
        t[j]""")]}),
 ('ce-nomem', {E: [("""        k[1][j] = step * dq[j];
    }
    // Compute next state and approximate error
    double err = 0.0;
    for (j = 0; j < this->sys->numVars(); j++) {
""", """        k[1][j] = step * dq[j];
    }
    double err = 0.0;
    for (int i = 0; i < this->sys->numVars(); i++) {
        j = i;
""")]}),
 ('ce-absorder', {E: [('fabs(k[0][j] - k[1][j])', 'fabs(k[1][j] - k[0][j])')]}),
 ('ce-stdabs', {E: [('fabs(k[0][j] - k[1][j])', 'std::abs(k[0][j] - k[1][j])')]}),
 ('ce-late-scale', {E: [("""        k[0][j] = step * dq[j];
    }
    // Compute k2
    for (j = 0; j < this->sys->numVars(); j++) {
        t[j] = qq[j] + 0.5 * k[0][j];""", """        k[0][j] = dq[j];
        t[j] = qq[j] + 0.5 * step * k[0][j];
        k[0][j] *= step;""")]}),
 ('trap-factor', {TR: [('    for (int i = 0; i < N * N; i++) {\n        Jd[i] *= data->h / 2.0;', '    double const hh = 0.5 * data->h;\n    for (int i = 0; i < N * N; i++) {\n        Jd[i] = hh * Jd[i];')]}),
 ('trap-jac-2d', {TR: [("""    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        for (int i = 0; i < N; i++) {
            Jd[j * N + i] *= data->h / 2.0;
        }
        Jd[j * N + j] -= 1.0;
    }
""")]}),
 ('trap-jac-if', {TR: [("""    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        for (int i = 0; i < N; i++) {
            Jd[j * N + i] *= data->h / 2.0;
            if (i == j) {
                Jd[j * N + i] -= 1.0;
            }
        }
    }
""")]}),
 ('trap-jac-ter', {TR: [("""    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    double const hh = data->h * 0.5;
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < N; j++) {
            Jd[j * N + i] = hh * Jd[j * N + i] - ((i == j) ? 1.0 : 0.0);
        }
    }
""")]}),
 ('trap-jac-col', {TR: [("""    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        double* col = Jd + j * N;
        for (int i = 0; i < N; i++) {
            col[i] *= data->h / 2.0;
        }
        col[j] -= 1.0;
    }
""")]}),
 ('trap-res-order', {TR: [('fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];', 'double const half = data->h / 2.0;\n        fd[i] *= half;\n        fd[i] += data->self->k[i];\n        fd[i] -= yd[i];')]}),
 ('trap-res-neg', {TR: [('fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];', 'fd[i] = yd[i] - data->self->k[i] - fd[i] * (data->h / 2.0);'), ('Jd[i] *= data->h / 2.0;', 'Jd[i] *= -data->h / 2.0;'), ('Jd[i * (N + 1)] -= 1.0;', 'Jd[i * (N + 1)] += 1.0;')]}),
 ('trap-res-split', {TR: [('k[i] = q[i] + (h / 2.0) * dq0[i];', 'k[i] = q[i] + 0.5 * h * dq0[i];')]}),
 ('trap-step-loop', {TR: [("""    while (!step(q, h, dq)) {
        h *= 0.8;
        h_cur = h;
    }
""", """    bool ok = step(q, h, dq);
    while (!ok) {
        h = 0.8 * h;
        h_cur = h;
        ok = step(q, h, dq);
    }
""")]}),
 ('trap-copy-loop', {TR: [('    memcpy(q, yd, sizeof(double) * N);\n', '    for (int i = 0; i < N; i++) {\n        q[i] = yd[i];\n    }\n')]}),
 ('trap-posret', {TR: [("""    if (retval < 0) {
        return false;
    }
    memcpy(q, yd, sizeof(double) * N);
    return true;
""", """    bool const ok = (retval >= 0);
    if (ok) {
        memcpy(q, yd, sizeof(double) * N);
    }
    return ok;
""")]}),
 ('trap-check-direct', {TR: [('if (check_retval(&retval, "KINInit", 1)) {', 'if (retval < 0) {'), ('if (check_retval((void*)kmem, "KINCreate", 0)) {', 'if (kmem == nullptr) {')]}),
 ('trap-h0', {TR: [('    if (h == 0.0) {\n        return h;\n    }\n', '    if (h <= 0.0) {\n        return h;\n    }\n')]}),
 ('trap-guess-sep', {TR: [("""        guess[i] = yd[i] = q[i] + h * dq0[i];
    }""", """        guess[i] = q[i] + h * dq0[i];
    }
    for (int i = 0; i < N; i++) {
        yd[i] = guess[i];
    }""")]}),
 ('trap-hcur-max', {TR: [('            continue;\n        }\n        double hh = sqrt(err_tol / C);\n        // Next step size.\n        h_cur = std::min(h_cur, hh);', '            continue;\n        }\n        double hh = sqrt(err_tol / C);\n        if (hh < h_cur) {\n            h_cur = hh;\n        }')]}),
 ('sp-horner', {SP: [('q[i] = a[i] * hhh + b[i] * hh + c[i] * h + d[i];', 'q[i] = d[i] + h * (c[i] + h * (b[i] + h * a[i]));')]}),
 ('sp-local', {SP: [("""            a[i] = (2.0 / (h * h * h)) * ((h / 2.0) * (dqh[i] - c[i]) - qh[i] + c[i] * h + d[i]);
""", """            double const dd = (dqh[i] - dq0[i]) * h / 2.0;
            a[i] = 2.0 * (dd - qh[i] + dq0[i] * h + q0[i]) / (h * h * h);
""")]}),
 ('sp-b-direct', {SP: [('b[i] = (1.0 / (2.0 * h)) * (dqh[i] - c[i] - 3.0 * a[i] * h * h);', 'b[i] = (qh[i] - d[i] - c[i] * h) / (h * h) - a[i] * h;')]}),
 ('sp-split', {SP: [("""            d[i] = q0[i];
            c[i] = dq0[i];
            a[i]""", """            d[i] = q0[i];
        }
        for (int i = 0; i < N; i++) {
            c[i] = dq0[i];
            a[i]""")]}),
 ('sp-pow', {SP: [('double const hhh = hh * h;', 'double const hhh = h * h * h;')]}),
 ('trap-ctl-max', {TR: [("    for (int i = 0; i < this->sys->numVars(); i++) {\n        double C = fabs(guess[i] - q[i]) / (h * h);\n        // If the guesses are very close, then don't bother with\n        // the error estimate\n        if (C < FLT_MIN) {\n            continue;\n        }\n        double hh = sqrt(err_tol / C);\n        // Next step size.\n        h_cur = std::min(h_cur, hh);\n    }\n", """    double worst = 0.0;
    for (int i = 0; i < this->sys->numVars(); i++) {
        worst = std::max(worst, fabs(guess[i] - q[i]));
    }
    double const C = worst / (h * h);
    if (C >= FLT_MIN) {
        h_cur = std::min(h_cur, sqrt(err_tol / C));
    }
""")]}),
 ('trap-ctl-root', {TR: [('sqrt(err_tol / C)', 'h * sqrt(err_tol / fabs(guess[i] - q[i]))')]}),
 ('trap-ctl-nest', {TR: [("    for (int i = 0; i < this->sys->numVars(); i++) {\n        double C = fabs(guess[i] - q[i]) / (h * h);\n        // If the guesses are very close, then don't bother with\n        // the error estimate\n        if (C < FLT_MIN) {\n            continue;\n        }\n        double hh = sqrt(err_tol / C);\n        // Next step size.\n        h_cur = std::min(h_cur, hh);\n    }\n", """    int const N = this->sys->numVars();
    for (int i = 0; i < N; i++) {
        double const err = fabs(q[i] - guess[i]);
        double const C = err / (h * h);
        if (C >= FLT_MIN && sqrt(err_tol / C) < h_cur) {
            h_cur = sqrt(err_tol / C);
        }
    }
""")]}),
 ('trap-ctl-local', {TR: [('    h_cur = h_max;\n', '    double next = h_max;\n'), ('        h_cur = h;\n', '        next = h;\n'), ('h_cur = std::min(h_cur, hh);\n    }\n', 'next = std::min(next, hh);\n    }\n    h_cur = next;\n')]}),
 ('trap-res-half', {TR: [('fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];', 'fd[i] = data->self->k[i] - yd[i] + 0.5 * data->h * fd[i];')]}),
 ('trap-res-self', {TR: [('    data->self->sys->der_func(yd, fd);\n    for (int i = 0; i < data->self->sys->numVars(); i++) {\n        fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];', '    trap<ValueType>* me = data->self;\n    double const half = data->h / 2.0;\n    me->sys->der_func(yd, fd);\n    int const N = me->sys->numVars();\n    for (int i = 0; i < N; i++) {\n        fd[i] = me->k[i] + fd[i] * half - yd[i];')]}),
 ('trap-res-neg', {TR: [('fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];', 'fd[i] = yd[i] - data->self->k[i] - fd[i] * (data->h / 2.0);'), ('Jd[i] *= data->h / 2.0;', 'Jd[i] *= -data->h / 2.0;'), ('Jd[i * (N + 1)] -= 1.0;', 'Jd[i * (N + 1)] += 1.0;')]}),
 ('trap-half-field', {TR: [('        double h;\n    };', '        double h;\n        double half;\n    };'), ('kinsol_data.h = h;', 'kinsol_data.h = h;\n    kinsol_data.half = h / 2.0;'), ('fd[i] * (data->h / 2.0)', 'fd[i] * data->half')]}),
]
