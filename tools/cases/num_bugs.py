R = 'include/adevs/solvers/rk_45.h'
E = 'include/adevs/solvers/corrected_euler.h'
TR = 'include/adevs/solvers/trap.h'
SP = 'include/adevs/solvers/spline.h'
COPY = """        for (int i = 0; i < this->sys->numVars(); i++) {
            qq[i] = q[i];
        }
"""
CASES = [
 # N01
 ('rk-b', 'N01', [(R, '(27.0 / 56.0) * k[4][j] +', '(27.0 / 55.0) * k[4][j] +')]),
 ('rk-a', 'N01', [(R, '(28.0 / 625.0) * k[0][j] - 0.2 * k[1][j]', '(28.0 / 625.0) * k[0][j] + 0.2 * k[1][j]')]),
 ('rk-stage-swapped', 'N01', [(R, 't[j] = qq[j] - k[1][j] + 2.0 * k[2][j];', 't[j] = qq[j] - k[0][j] + 2.0 * k[2][j];')]),
 ('rk-err-coeff', 'N01', [(R, '2.0 * k[2][j] / 3.0', 'k[2][j] / 3.0')]),
 ('rk-err-stage', 'N01', [(R, '2.0 * k[2][j] / 3.0', '2.0 * k[1][j] / 3.0')]),
 ('rk-err-noabs', 'N01', [(R, 'fabs(k[0][j] / 8.0', '(k[0][j] / 8.0')]),
 ('rk-err-last', 'N01', [(R, 'err = std::max(err, fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -', 'err = (fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -')]),
 ('rk-err-min', 'N01', [(R, 'err = std::max(err, fabs(k[0]', 'err = std::min(err, fabs(k[0]')]),
 ('rk-stale-k', 'N01', [(R, '        k[2][j] = step * dq[j];\n    }\n    // Compute k4', '        k[2][j] = dq[j];\n    }\n    // Compute k4')]),
 ('rk-from1', 'N01', [(R, 'for (int j = 0; j < this->sys->numVars(); j++) {\n        // Next state', 'for (int j = 1; j < this->sys->numVars(); j++) {\n        // Next state')]),
 ('rk-der-wrong', 'N01', [(R, '    this->sys->der_func(t, dq);\n    for (int j = 0; j < this->sys->numVars(); j++) {\n        k[4][j]', '    this->sys->der_func(qq, dq);\n    for (int j = 0; j < this->sys->numVars(); j++) {\n        k[4][j]')]),
 ('rk-b-order1', 'N01', [(R, 'qq[j] += (1.0 / 24.0) * k[0][j] + (5.0 / 48.0)', 'qq[j] += (5.0 / 48.0) * k[0][j] + (1.0 / 24.0)')]),
 ('ce-mid', 'N01', [(E, 't[j] = qq[j] + 0.5 * k[0][j];', 't[j] = qq[j] + 0.25 * k[0][j];')]),
 ('ce-first-order', 'N01', [(E, 'qq[j] += k[1][j];', 'qq[j] += k[0][j];')]),
 ('ce-err', 'N01', [(E, 'fabs(k[0][j] - k[1][j])', 'fabs(k[0][j] + k[1][j])')]),
 ('ce-err-noabs', 'N01', [(E, 'fabs(k[0][j] - k[1][j])', 'k[0][j] - k[1][j]')]),
 ('ce-err-sum', 'N01', [(E, 'err = std::max<double>(err, fabs(k[0][j] - k[1][j]))', 'err = fabs(k[0][j] - k[1][j])')]),
 # N02
 ('rk-accept', 'N02', [(R, 'if (err <= err_tol) {', 'if (err <= 10.0 * err_tol) {')]),
 ('rk-accept-none', 'N02', [(R, 'if (err <= err_tol) {', 'if (err <= err_tol || h < h_max) {')]),
 ('rk-nolim', 'N02', [(R, 'std::min<double>(h_max, h_lim)', 'h_max')]),
 ('rk-nomax', 'N02', [(R, 'std::min<double>(h_max, h_lim)', 'h_lim')]),
 ('rk-maxlim', 'N02', [(R, 'std::min<double>(h_max, h_lim)', 'std::max<double>(h_max, h_lim)')]),
 ('rk-norestore', 'N02', [(R, "    for (;;) {\n        // Copy q to the trial vector\n" + COPY, '        // Copy q to the trial vector\n' + COPY + '    for (;;) {\n')]),
 ('rk-grow', 'N02', [(R, 'h *= 0.8;\n', 'h *= 1.25;\n')]),
 ('rk-nocopyback', 'N02', [(R, '        q[i] = qq[i];\n', '        qq[i] = q[i];\n')]),
 ('rk-copyback-part', 'N02', [(R, 'for (int i = 0; i < this->sys->numVars(); i++) {\n        q[i] = qq[i];', 'for (int i = 0; i < this->sys->numVars() - 1; i++) {\n        q[i] = qq[i];')]),
 ('rk-return-cur', 'N02', [(R, '    return h;\n}\n\ntemplate <typename ValueType>\ndouble rk_45<ValueType>::trial', '    return h_cur;\n}\n\ntemplate <typename ValueType>\ndouble rk_45<ValueType>::trial')]),
 ('rk-advance-again', 'N02', [(R, 'while ((dt = integrate(q, h)) < h) {\n        h -= dt;', 'while ((dt = integrate(q, h)) < h) {\n        h -= h_cur;')]),
 ('rk-advance-once', 'N02', [(R, 'while ((dt = integrate(q, h)) < h) {', 'if ((dt = integrate(q, h)) < h) {')]),
 ('rk-advance-half', 'N02', [(R, 'while ((dt = integrate(q, h)) < h) {', 'while ((dt = integrate(q, h)) < h / 2.0) {')]),
 ('ce-accept-lt', 'N02', [(E, 'if (err <= err_tol) {', 'if (err * h <= err_tol) {')]),
 ('ce-nolim', 'N02', [(E, 'h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim))', 'h = std::min<double>(h_cur * 1.1, h_max)')]),
 ('ce-grow', 'N02', [(E, 'std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim))', 'std::max<double>(h_cur * 1.1, std::min<double>(h_max, h_lim))')]),
 ('ce-guess', 'N02', [(E, 'if (h < h_guess) {', 'if (h > h_guess) {')]),
 ('ce-noshrink2', 'N02', [(E, 'h *= 0.8;', 'h *= 1.0;')]),
 ('trap-nolim', 'N02', [(TR, 'std::min<double>(h_cur, std::min<double>(h_max, h_lim))', 'std::min<double>(h_cur, h_max)')]),
 ('trap-return-cur', 'N02', [(TR, '    // Return the step size that we used\n    return h;', '    return std::min(h, h_cur);')]),
 ('trap-advance', 'N02', [(TR, '        h -= dt;', '        h = dt;')]),
 # N03
 ('trap-k', 'N03', [(TR, 'k[i] = q[i] + (h / 2.0) * dq0[i];', 'k[i] = q[i] + h * dq0[i];')]),
 ('trap-res', 'N03', [(TR, 'fd[i] * (data->h / 2.0) - yd[i]', 'fd[i] * data->h - yd[i]')]),
 ('trap-res-sign', 'N03', [(TR, 'fd[i] * (data->h / 2.0) - yd[i]', 'fd[i] * (data->h / 2.0) + yd[i]')]),
 ('trap-jac-h', 'N03', [(TR, 'Jd[i] *= data->h / 2.0;', 'Jd[i] *= data->h;')]),
 ('trap-jac-diag', 'N03', [(TR, 'Jd[i * (N + 1)] -= 1.0;', 'Jd[i * N] -= 1.0;')]),
 ('trap-jac-sign', 'N03', [(TR, 'Jd[i * (N + 1)] -= 1.0;', 'Jd[i * (N + 1)] += 1.0;')]),
 ('trap-jac-range', 'N03', [(TR, 'i < N * N;', 'i < N;')]),
 ('trap-jac2-h', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        for (int i = 0; i < N; i++) {
            Jd[j * N + i] *= data->h ;
            if (i == j) {
                Jd[j * N + i] -= 1.0;
            }
        }
    }
""")]),
 ('trap-jac2-off', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        for (int i = 0; i < N; i++) {
            Jd[j * N + i] *= data->h / 2.0;
            if (i != j) {
                Jd[j * N + i] -= 1.0;
            }
        }
    }
""")]),
 ('trap-jac2-tr', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    double const hh = data->h * 0.5;
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < N; j++) {
            Jd[j * N + i] = hh * Jd[i * N + j] - ((i == j) ? 1.0 : 0.0);
        }
    }
""")]),
 ('trap-jac2-nodiag', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    double const hh = data->h * 0.5;
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < N; j++) {
            Jd[j * N + i] = hh * Jd[j * N + i];
        }
    }
""")]),
 ('trap-jac2-col', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        double* col = Jd + j * N;
        for (int i = 0; i < N; i++) {
            col[i] *= data->h / 2.0;
        }
        col[j] += 1.0;
    }
""")]),
 ('trap-jac2-early', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int j = 0; j < N; j++) {
        double* col = Jd + j * N;
        col[j] -= 1.0;
        for (int i = 0; i < N; i++) {
            col[i] *= data->h / 2.0;
        }
    }
""")]),
 ('trap-jac-early', 'N03', [(TR, """    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
""", """    for (int i = 0; i < N; i++) {
        Jd[i * (N + 1)] -= 1.0;
    }
    for (int i = 0; i < N * N; i++) {
        Jd[i] *= data->h / 2.0;
    }
""")]),
 ('trap-fail-kept', 'N03', [(TR, '    if (retval < 0) {\n        return false;\n    }\n    memcpy(q, yd, sizeof(double) * N);\n', '    memcpy(q, yd, sizeof(double) * N);\n    if (retval < 0) {\n        return false;\n    }\n')]),
 ('trap-fail-ignored', 'N03', [(TR, '    if (retval < 0) {\n        return false;\n    }\n', '')]),
 ('trap-fail-some', 'N03', [(TR, '    if (retval < 0) {\n        return false;', '    if (retval < -5) {\n        return false;')]),
 ('trap-h-old', 'N03', [(TR, '    kinsol_data.h = h;\n', '    kinsol_data.h = h_cur;\n')]),
 ('trap-h-once', 'N03', [(TR, '    kinsol_data.h = h;\n', ''), (TR, '    while (!step(q, h, dq)) {', '    kinsol_data.h = h;\n    while (!step(q, h, dq)) {')]),
 ('trap-der-once', 'N03', [(TR, '    data->self->sys->der_func(yd, fd);\n', '    data->self->sys->der_func(data->self->guess, fd);\n')]),
 ('trap-retry-same', 'N03', [(TR, '        h *= 0.8;\n        h_cur = h;', '        h_cur *= 0.8;')]),
 ('trap-memcpy-part', 'N03', [(TR, 'sizeof(double) * N);', 'sizeof(double) * (N - 1));')]),
 ('trap-memcpy-guess', 'N03', [(TR, 'memcpy(q, yd,', 'memcpy(q, guess,')]),
 ('trap-ignore-init', 'N03', [(TR, '    if (check_retval(&retval, "KINInit", 1)) {\n        throw adevs::exception("KINInit failed");\n    }\n', '')]),
 ('trap-check-opt', 'N03', [(TR, 'if (check_retval(&retval, "KINInit", 1)) {', 'if (check_retval(&retval, "KINInit", 0)) {')]),
 ('trap-check-gt', 'N03', [(TR, 'if (*errretval < 0) {', 'if (*errretval > 0) {')]),
 ('trap-jac-always', 'N03', [(TR, 'if (this->sys->get_jacobian(NULL, NULL)) {', 'if (kmem) {')]),
 ('trap-scale', 'N03', [(TR, 'N_VConst(1.0, scale);', 'N_VConst(0.0, scale);')]),
 # N04
 ('sp-c', 'N04', [(SP, '- qh[i] + c[i] * h + d[i]', '- qh[i] - c[i] * h + d[i]')]),
 ('sp-b', 'N04', [(SP, '- 3.0 * a[i] * h * h', '- 2.0 * a[i] * h * h')]),
 ('sp-eval', 'N04', [(SP, 'a[i] * hhh + b[i] * hh', 'a[i] * hh + b[i] * hhh')]),
 ('sp-range', 'N04', [(SP, '        for (int i = 0; i < N; i++) {\n            q[i]', '        for (int i = 1; i < N; i++) {\n            q[i]')]),
 ('sp-order', 'N04', [(SP, '            a[i] = (2.0 / (h * h * h)) * ((h / 2.0) * (dqh[i] - c[i]) - qh[i] + c[i] * h + d[i]);\n            b[i] = (1.0 / (2.0 * h)) * (dqh[i] - c[i] - 3.0 * a[i] * h * h);', '            b[i] = (1.0 / (2.0 * h)) * (dqh[i] - c[i] - 3.0 * a[i] * h * h);\n            a[i] = (2.0 / (h * h * h)) * ((h / 2.0) * (dqh[i] - c[i]) - qh[i] + c[i] * h + d[i]);')]),
 ('sp-hhh', 'N04', [(SP, 'hhh = hh * h;', 'hhh = hh * hh;')]),
 ('trap-ctl-sign', 'N03', [(TR, 'guess[i] = yd[i] = q[i] + h * dq0[i];', 'guess[i] = yd[i] = q[i] - h * dq0[i];')]),
 ('trap-ctl-h', 'N03', [(TR, 'fabs(guess[i] - q[i]) / (h * h)', 'fabs(guess[i] - q[i]) / h')]),
 ('trap-ctl-break', 'N03', [(TR, '            continue;', '            break;')]),
 ('trap-ctl-max', 'N03', [(TR, 'h_cur = std::min(h_cur, hh);', 'h_cur = std::max(h_cur, hh);')]),
 ('trap-ctl-tiny', 'N03', [(TR, 'if (C < FLT_MIN) {', 'if (C < err_tol) {')]),
 ('trap-ctl-last', 'N03', [(TR, 'h_cur = std::min(h_cur, hh);', 'h_cur = std::min(h_max, hh);')]),
 ('trap-ctl-old', 'N03', [(TR, 'fabs(guess[i] - q[i]) / (h * h)', 'fabs(guess[i] - q[i]) / (h_cur * h_cur)')]),
 ('trap-retry-stall', 'N03', [(TR, '    if (retval < 0) {', '    if (retval != KIN_SUCCESS) {')]),
 ('trap-jac-scale1', 'N03', [(TR, 'i < N * N; i++', 'i < N * N - 1; i++')]),
]
