import subprocess
B = 'include/adevs/solvers/'
RK, CE, TR, SP, EL = (B + x for x in ('rk_45.h', 'corrected_euler.h', 'trap.h', 'spline.h', 'event_locators.h'))
RULES = ['N01', 'N02', 'N03', 'N04', 'N05', 'R01', 'R02', 'R03']
SRC = {f: subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True).stdout for f in (RK, CE, TR, SP, EL)}
CASES = []
def seg(f, start, a, b):
    k = SRC[f].index(start); i = SRC[f].index(a, k); j = SRC[f].index(b, i + len(a))
    return SRC[f][i:j]
def body(f, start):
    k = SRC[f].index(start); i = SRC[f].index('{\n', k) + 2; j = SRC[f].index('\n}\n', i) + 1
    return SRC[f][i:j]
def whole(f, start, new):
    k = SRC[f].index(start); i = SRC[f].index('{\n', k) + 2
    return (f, SRC[f][k:i] + body(f, start), SRC[f][k:i] + new)
def c(cid, *eds):
    CASES.append((cid, '', list(eds)))
def sub(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
TS = '::trial_step(double step) {'
IN = '::integrate(double* q, double h_lim) {'
AD = '::advance(double* q, double h) {'
CT = '::rk_45(ode_system'
rt = body(RK, TS)
PR = '    // Compute a trial step of size h, store the result in qq, and return the error\n'
c('rk-stage-fn', whole(RK, TS, sub(rt, *[('    this->sys->der_func(%s, dq);\n    for (int j = 0; j < this->sys->numVars(); j++) {\n        k[%d][j] = step * dq[j];\n    }\n' % ('qq' if s == 0 else 't', s), '    stage(%s, k[%d], step);\n' % ('qq' if s == 0 else 't', s)) for s in range(6)])),
  (RK, PR, '    void stage(double const* at, double* slope, double step) {\n        this->sys->der_func(at, dq);\n        for (int j = 0; j < this->sys->numVars(); j++) {\n            slope[j] = step * dq[j];\n        }\n    }\n' + PR))
c('rk-stage-lambda', whole(RK, TS, '''    const int n = this->sys->numVars();
    auto stage = [&](double const* at, int s) {
        this->sys->der_func(at, dq);
        for (int j = 0; j < n; j++) {
            k[s][j] = dq[j] * step;
        }
    };
''' + sub(rt, *[('    this->sys->der_func(%s, dq);\n    for (int j = 0; j < this->sys->numVars(); j++) {\n        k[%d][j] = step * dq[j];\n    }\n' % ('qq' if s == 0 else 't', s), '    stage(%s, %d);\n' % ('qq' if s == 0 else 't', s)) for s in range(6)])))
c('rk-n', whole(RK, TS, '    const int N = this->sys->numVars();\n' + sub(rt, ('this->sys->numVars()', 'N'), ('j++', '++j'))))
c('rk-err-two', whole(RK, TS, sub(rt, (rt[rt.index('        // Component wise maximum'):rt.index('    // Return the error')], '''        const double e = k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -
                         27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0;
        if (fabs(e) > err) {
            err = fabs(e);
        }
    }
'''))))
c('rk-err-swap', whole(RK, TS, sub(rt, ('err = std::max(err, fabs(', 'err = std::max<double>(std::fabs('), ('125.0 * k[5][j] / 336.0));', '125.0 * k[5][j] / 336.0), err);'))))
c('rk-err-before', whole(RK, TS, sub(rt, (rt[rt.index('        // Next state\n'):rt.index('    // Return the error')], '''        double const e = fabs(k[0][j] * 0.125 + (2.0 / 3.0) * k[2][j] + k[3][j] / 16.0 -
                              (27.0 / 56.0) * k[4][j] - (125.0 / 336.0) * k[5][j]);
        err = (e > err) ? e : err;
        qq[j] = qq[j] + k[0][j] / 24.0 + 5.0 * k[3][j] / 48.0 + 27.0 * k[4][j] / 56.0 +
                125.0 * k[5][j] / 336.0;
    }
'''))))
c('rk-alias', whole(RK, TS, '    double *k1 = k[0], *k2 = k[1], *k3 = k[2], *k4 = k[3], *k5 = k[4], *k6 = k[5];\n' + sub(rt, *[('k[%d]' % i, 'k%d' % (i + 1)) for i in range(6)])))
c('rk-const-coeff', whole(RK, TS, '    static const double b1 = 1.0 / 24.0, b4 = 5.0 / 48.0, b5 = 27.0 / 56.0, b6 = 125.0 / 336.0;\n' + sub(rt, ('(1.0 / 24.0) * k', 'b1 * k'), ('(5.0 / 48.0) * k', 'b4 * k'), ('(27.0 / 56.0) * k', 'b5 * k'), ('(125.0 / 336.0) * k', 'b6 * k'))))
for nm, F, TY in (('rk', RK, 'rk_45'), ('ce', CE, 'corrected_euler')):
    ib = body(F, IN)
    loop = ib[ib.index('    for (;;) {'):ib.index('    // Copy the trial' if F == RK else '    // Put the trial')]
    c(nm + '-try-fn', whole(F, IN, sub(ib, ('        for (int i = 0; i < this->sys->numVars(); i++) {\n            qq[i] = q[i];\n        }\n', '        restart(q);\n'))),
      (F, '    double h_cur; ', '    void restart(double const* q) {\n        std::copy(q, q + this->sys->numVars(), qq);\n    }\n    double h_cur; '))
    c(nm + '-shrink-fn', whole(F, IN, sub(ib, (ib[ib.index('            double h_guess'):ib.index('        }\n    }\n')], '            h = shrink(h, err);\n'))),
      (F, '    double h_cur; ', '    double shrink(double h, double err) const {\n' + ib[ib.index('            double h_guess'):ib.index('        }\n    }\n')].replace('h *= 0.8;', 'return 0.8 * h;').replace('h = h_guess;', 'return h_guess;') + '    }\n    double h_cur; '))
    c(nm + '-while-err', whole(F, IN, sub(ib, (loop, '''    const int N = this->sys->numVars();
    do {
        memcpy(qq, q, N * sizeof(double));
        err = trial_step(h);
        if (err > err_tol) {
            double const guess = %s;
            h = (h < guess) ? 0.8 * h : guess;
        }
    } while (err > err_tol);
    if (h_cur <= h_lim) {
        h_cur = h;
    }
''' % ('0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25)' if F == RK else '0.8 * err_tol * h / fabs(err)')))), (F, '#include <cmath>\n', '#include <cmath>\n#include <cstring>\n')) if False else None
    c(nm + '-continue', whole(F, IN, sub(ib, (loop, '''    while (true) {
        for (int i = 0; i < this->sys->numVars(); i++) {
            qq[i] = q[i];
        }
        err = trial_step(h);
        if (!(err <= err_tol)) {
            const double guess = %s;
            h = std::min(guess, 0.8 * h);
            continue;
        }
        if (h_cur <= h_lim) {
            h_cur = h;
        }
        break;
    }
''' % ('0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25)' if F == RK else '0.8 * err_tol * h / fabs(err)'))))) if False else None
    c(nm + '-inv', whole(F, IN, sub(ib, (loop, '''    while (true) {
        for (int i = 0; i < this->sys->numVars(); i++) {
            qq[i] = q[i];
        }
        err = trial_step(h);
        if (!(err <= err_tol)) {
            const double guess = %s;
            h = (h < guess) ? h * 0.8 : guess;
            continue;
        }
        if (h_cur <= h_lim) {
            h_cur = h;
        }
        break;
    }
''' % ('0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25)' if F == RK else '0.8 * err_tol * h / fabs(err)')))))
    c(nm + '-ret-inside', whole(F, IN, sub(ib, ('            break;\n', '            std::copy(qq, qq + this->sys->numVars(), q);\n            return h;\n')).replace(ib[ib.index('    // Copy the trial' if F == RK else '    // Put the trial'):], '')))
    c(nm + '-hinit', whole(F, IN, sub(ib, (ib[ib.index('    double err'):ib.index('    for (;;)')], '''    double err = DBL_MAX;
    double h = h_cur * 1.1;
    if (h_max < h) {
        h = h_max;
    }
    if (h_lim < h) {
        h = h_lim;
    }
'''))))
    c(nm + '-hinit-list', whole(F, IN, sub(ib, ('std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim))', 'std::min({1.1 * h_cur, h_max, h_lim})'))))
    c(nm + '-adv-left', whole(F, AD, '''    double left = h;
    double step = integrate(q, left);
    while (step < left) {
        left -= step;
        step = integrate(q, left);
    }
'''))
    c(nm + '-adv-true', whole(F, AD, '''    while (true) {
        const double dt = integrate(q, h);
        if (!(dt < h)) {
            break;
        }
        h -= dt;
    }
'''))
    c(nm + '-adv-ret', whole(F, AD, '''    for (;;) {
        double dt = integrate(q, h);
        if (dt >= h) {
            return;
        }
        h = h - dt;
    }
'''))
c('ce-loopvar', whole(CE, TS, '''    this->sys->der_func(qq, dq);
    for (int i = 0; i < this->sys->numVars(); ++i) {
        k[0][i] = dq[i] * step;
        t[i] = qq[i] + k[0][i] / 2.0;
    }
    this->sys->der_func(t, dq);
    double worst = 0.0;
    for (int i = 0; i < this->sys->numVars(); ++i) {
        k[1][i] = dq[i] * step;
        qq[i] += k[1][i];
        worst = std::max<double>(worst, fabs(k[1][i] - k[0][i]));
    }
    return worst;
'''))
# trap
ti = body(TR, IN)
c('tr-min3', whole(TR, IN, sub(ti, ('std::min<double>(h_cur, std::min<double>(h_max, h_lim))', 'std::min({h_cur, h_max, h_lim})'))))
c('tr-limits', whole(TR, IN, sub(ti, ('    double h = std::min<double>(h_cur, std::min<double>(h_max, h_lim));\n', '    double h = std::min<double>(h_cur, h_max);\n    h = std::min<double>(h, h_lim);\n'))))
c('tr-next', whole(TR, IN, sub(ti, ('    h_cur = h_max;\n', '    double next = h_max;\n'), ('        h_cur = h;\n', '        next = h;\n'), ('        h_cur = std::min(h_cur, hh);\n    }\n', '        next = std::min(next, hh);\n    }\n    h_cur = next;\n'))))
c('tr-for', whole(TR, IN, sub(ti, ('    while (!step(q, h, dq)) {\n        h *= 0.8;\n        h_cur = h;\n    }\n', '    for (bool done = step(q, h, dq); !done; done = step(q, h, dq)) {\n        h *= 0.8;\n        h_cur = h;\n    }\n'))))
c('tr-true', whole(TR, IN, sub(ti, ('    while (!step(q, h, dq)) {\n        h *= 0.8;\n        h_cur = h;\n    }\n', '    while (true) {\n        if (step(q, h, dq)) {\n            break;\n        }\n        h = 0.8 * h;\n        h_cur = h;\n    }\n'))))
c('tr-err-fn', whole(TR, IN, sub(ti, (ti[ti.index('    for (int i = 0; i < this->sys->numVars(); i++) {\n        double C'):ti.index('    // Return the step size')], '    limit(q, h);\n'))), (TR, '    double h_cur;', '    void limit(double const* q, double h) {\n' + ti[ti.index('    for (int i = 0; i < this->sys->numVars(); i++) {\n        double C'):ti.index('    // Return the step size')] + '    }\n    double h_cur;'))
c('tr-err-if', whole(TR, IN, sub(ti, (ti[ti.index('        if (C < FLT_MIN) {\n'):ti.index('    }\n    // Return the step size')], '        if (C >= FLT_MIN) {\n            h_cur = std::min(h_cur, sqrt(err_tol / C));\n        }\n'))))
# locators
fe = body(EL, 'event_locator_impl<ValueType>::find_events(')
NIT = fe[fe.index('            if (sign(z[1][i]) != sign(z[0][i])) {'):fe.index('        // Guess at a new h')]
c('el-negated', (EL, NIT, '''            if (sign(z[1][i]) == sign(z[0][i])) {
                continue;
            }
            const bool close = (mode == DISCONTINUOUS) ? h <= err_tol : fabs(z[1][i]) <= err_tol;
            if (close) {
                events[i] = true;
                found_event = true;
                continue;
            }
            event_in_interval = true;
            if (mode == INTERPOLATE) {
                const double tcandidate = std::max(z[0][i] * h / (z[0][i] - z[1][i]), h / 4.0);
                tguess = std::min(tguess, tcandidate);
            }
        }
'''))
c('el-helper', (EL, '                if (\n                    // End condition when z is continuous\n                    ((mode != DISCONTINUOUS) && (fabs(z[1][i]) <= err_tol)) ||\n                    // End condition when z is discontinuous\n                    ((mode == DISCONTINUOUS) && (h <= err_tol))) {\n', '                if (located(i, h)) {\n'),
  (EL, '    int sign(double x) const {\n', '    bool located(int i, double h) const {\n        if (mode == DISCONTINUOUS) {\n            return h <= err_tol;\n        }\n        return fabs(z[1][i]) <= err_tol;\n    }\n    int sign(double x) const {\n'))
c('el-none', whole(EL, 'event_locator_impl<ValueType>::find_events(', sub(fe, ('    // Calculate the state event functions at the start\n', '    const int M = this->sys->numEvents();\n    if (M == 0) {\n        return false;\n    }\n    // Calculate the state event functions at the start\n'), ('while (this->sys->numEvents() > 0) {', 'for (;;) {'), ('    // Will never reach this line\n    return false;\n', ''), ('i < this->sys->numEvents()', 'i < M'))))
c('el-try', whole(EL, 'event_locator_impl<ValueType>::find_events(', sub(fe, ('''            for (int i = 0; i < this->sys->numVars(); i++) {
                qend[i] = qstart[i];
            }
            solver->advance(qend, h);
''', '            retry(qstart, qend, solver, h);\n'))), (EL, '    int sign(double x) const {\n', '''    void retry(double const* qstart, double* qend, ode_solver<ValueType>* solver, double h) {
        std::copy(qstart, qstart + this->sys->numVars(), qend);
        solver->advance(qend, h);
    }
    int sign(double x) const {
'''))
c('el-found-first', whole(EL, 'event_locator_impl<ValueType>::find_events(', sub(fe, ('        if (event_in_interval) {\n            if (mode == BISECTION || mode == DISCONTINUOUS) {', '        if (!event_in_interval) {\n            return found_event;\n        }\n        {\n            if (mode != INTERPOLATE) {'), ('        } else {\n            return found_event;\n        }\n', '        }\n'))))
c('el-sign', (EL, seg(EL, 'int sign(double x)', '        if (x < 0.0)', '    }\n};'), '        return (x > 0.0) - (x < 0.0);\n'))
c('el-sign-if', (EL, seg(EL, 'int sign(double x)', '        if (x < 0.0)', '    }\n};'), '        if (x < 0.0) {\n            return -1;\n        }\n        if (x > 0.0) {\n            return 1;\n        }\n        return 0;\n'))
ff = body(EL, 'fast_event_locator<ValueType>::find_events(')
c('fl-eval', whole(EL, 'fast_event_locator<ValueType>::find_events(', sub(ff, ('    this->sys->state_event_func(qend, zf);\n    // Did the event function change sign?\n    sign_change = is_sign_change();\n', '    sign_change = changed(qend);\n'), ('    this->sys->state_event_func(qend, zf);\n    sign_change = is_sign_change();\n', '    sign_change = changed(qend);\n'))), (EL, '    bool is_sign_change() const;\n', '    bool is_sign_change() const;\n    bool changed(double const* q) {\n        this->sys->state_event_func(q, zf);\n        return is_sign_change();\n    }\n'))
LOOP = ff[ff.index('repeat:'):]
c('fl-loop', whole(EL, 'fast_event_locator<ValueType>::find_events(', ff.replace(LOOP, '''    while (true) {
        if (sign_change) {
            if (hh - hl < err_tol) {
                break;
            }
            hh = hg;
        } else {
            hl = hg;
        }
        hg = (hh + hl) / 2.0;
        if (p != NULL) {
            p->interpolate(qend, hg);
        } else {
            memcpy(qend, qstart, sizeof(double) * this->sys->numVars());
            solver->advance(qend, hg);
        }
        this->sys->state_event_func(qend, zf);
        sign_change = is_sign_change();
    }
    h = hg;
    for (int i = 0; i < N; i++) {
        events[i] = is_sign_change(i);
    }
    return true;
''')))
c('fl-loop2', whole(EL, 'fast_event_locator<ValueType>::find_events(', ff.replace(LOOP, '''    while (!sign_change || hh - hl >= err_tol) {
        (sign_change ? hh : hl) = hg;
        hg = 0.5 * (hh + hl);
        solve(qstart, qend, solver, hg);
        this->sys->state_event_func(qend, zf);
        sign_change = is_sign_change();
    }
    h = hg;
    for (int i = 0; i < N; i++) {
        events[i] = is_sign_change(i);
    }
    return true;
''')), (EL, '    bool is_sign_change() const;\n', '''    bool is_sign_change() const;
    void solve(double const* qstart, double* qend, ode_solver<ValueType>* solver, double h) {
        if (p != NULL) {
            p->interpolate(qend, h);
            return;
        }
        for (int i = 0; i < this->sys->numVars(); i++) {
            qend[i] = qstart[i];
        }
        solver->advance(qend, h);
    }
'''))
c('fl-none', whole(EL, 'fast_event_locator<ValueType>::find_events(', sub(ff, ('        memset(events, 0, sizeof(bool) * N);\n', '        for (int i = 0; i < N; i++) {\n            events[i] = false;\n        }\n'))))
c('fl-anyof', (EL, seg(EL, 'fast_event_locator<ValueType>::is_sign_change() const {', '    for (int i', '}\n\ntemplate'), '    int i = 0;\n    while (i < this->sys->numEvents() && !is_sign_change(i)) {\n        i++;\n    }\n    return i < this->sys->numEvents();\n'))
c('fl-sign', (EL, 'return z0[i] * zf[i] <= 0.0;', 'double const product = z0[i] * zf[i];\n        return !(product > 0.0);')) if False else None
# spline
c('sp-inv', (SP, seg(SP, 'void init(', '        for (int i = 0;', '    }\n\n    /// Destructor'), '''        double const h2 = h * h, h3 = h2 * h;
        for (int i = 0; i < N; ++i) {
            double const slope = dqh[i] - dq0[i];
            a[i] = 2.0 * (0.5 * h * slope - qh[i] + dq0[i] * h + q0[i]) / h3;
            b[i] = (slope - 3.0 * a[i] * h2) / (2.0 * h);
            c[i] = dq0[i];
            d[i] = q0[i];
        }
'''))
c('sp-horner', (SP, seg(SP, 'void interpolate(', '        double const hh', '    }\n\n  private'), '''        for (int i = 0; i < N; ++i) {
            double x = a[i];
            x = x * h + b[i];
            x = x * h + c[i];
            x = x * h + d[i];
            q[i] = x;
        }
'''))
CASES = [x for x in CASES if x]
