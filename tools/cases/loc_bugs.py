E = 'include/adevs/solvers/event_locators.h'
RULES = ['N05']
COPY = """            for (int i = 0; i < this->sys->numVars(); i++) {
                qend[i] = qstart[i];
            }
"""
def c(i, *ed):
    return (i, {E: list(ed)})
CASES = [
 c('no-restart', (COPY, '')),
 c('restart-part', ('for (int i = 0; i < this->sys->numVars(); i++) {\n                qend[i] = qstart[i]', 'for (int i = 1; i < this->sys->numVars(); i++) {\n                qend[i] = qstart[i]')),
 c('advance-tguess', ('solver->advance(qend, h);\n        }', 'solver->advance(qend, tguess);\n        }')),
 c('h-late', ('                h /= 2.0;\n', '                tguess = h / 2.0;\n')),
 c('flag-kept', ('            events[i] = false;\n', '')),
 c('flag-early', ('            events[i] = false;\n', '            if (!found_event) {\n                events[i] = false;\n            }\n')),
 c('values-start-end', ('this->sys->state_event_func(qend, z[1]);\n', 'if (h > 0.0) {\n            this->sys->state_event_func(qend, z[1]);\n        }\n')),
 c('values-swapped', ('this->sys->state_event_func(qstart, z[0]);\n    // Look', 'this->sys->state_event_func(qend, z[0]);\n    // Look')),
 c('tol-start', ('(fabs(z[1][i]) <= err_tol)', '(fabs(z[0][i]) <= err_tol)')),
 c('tol-mode', ('((mode == DISCONTINUOUS) && (h <= err_tol))', '((mode != DISCONTINUOUS) && (h <= err_tol))')),
 c('tol-abs', ('(fabs(z[1][i]) <= err_tol)', '(fabs(z[1][i]) >= err_tol)')),
 c('no-tol', ('((mode != DISCONTINUOUS) && (fabs(z[1][i]) <= err_tol))', '(mode != DISCONTINUOUS)')),
 c('found-only-last', ('return found_event;', 'return events[0];')),
 c('ret-true', ('return found_event;', 'return true;')),
 c('grow', ('h /= 2.0;', 'h *= 1.5;')),
 c('clamp', ('                        if (tcandidate < tguess) {\n                            tguess', '                        if (tcandidate > tguess) {\n                            tguess')),
 c('in-interval-missing', ('                    event_in_interval = true;\n', '                    if (mode == INTERPOLATE) {\n                        event_in_interval = true;\n                    }\n')),
 c('sign-lt', ('if (sign(z[1][i]) != sign(z[0][i])) {', 'if (sign(z[1][i]) < sign(z[0][i])) {')),
 c('sign-zero', ('            return 0;\n', '            return 1;\n')),
 c('range', ('for (int i = 0; i < this->sys->numEvents(); i++) {\n            events[i] = false', 'for (int i = 1; i < this->sys->numEvents(); i++) {\n            events[i] = false')),
 # fast
 c('f-strict', ('return z0[i] * zf[i] <= 0.0;', 'return z0[i] * zf[i] < 0.0;')),
 c('f-h', ('    h = hg;\n', '    h = hh;\n')),
 c('f-hl', ('    h = hg;\n', '    h = hl;\n')),
 c('f-noh', ('    h = hg;\n', '')),
 c('f-nocopy', ('        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n', '')),
 c('f-copypart', ('        memcpy(qend, qstart, sizeof(double) * this->sys->numVars());\n', '        memcpy(qend, qstart, this->sys->numVars());\n')),
 c('f-interp', ('p->interpolate(qend, hg);', 'p->interpolate(qend, hh);')),
 c('f-advance', ('solver->advance(qend, hg);', 'solver->advance(qend, hg - hl);')),
 c('f-noclear', ('        memset(events, 0, sizeof(bool) * N);\n', '')),
 c('f-clear-part', ('memset(events, 0, sizeof(bool) * N);', 'memset(events, 0, sizeof(bool) * (N - 1));')),
 c('f-flags', ('events[i] = is_sign_change(i);', 'events[i] = true;')),
 c('f-flags-inv', ('events[i] = is_sign_change(i);', 'events[i] = !is_sign_change(i);')),
 c('f-flags-part', ('for (int i = 0; i < N; i++) {\n        events', 'for (int i = 1; i < N; i++) {\n        events')),
 c('f-nosef', ('    this->sys->state_event_func(qend, zf);\n    // Did the event function change sign?\n', '')),
 c('f-sef-start', ('    this->sys->state_event_func(qstart, z0);\n', '    this->sys->state_event_func(qend, z0);\n')),
 c('f-stale-sign', ('    sign_change = is_sign_change();\n    // Try again', '    // Try again')),
 c('f-hg-plus', ('hg = (hh + hl) / 2.0;', 'hg = hh + hl;')),
 c('f-spline-args', ('p->init(qstart, dq0, qend, dqh, h);', 'p->init(qstart, dqh, qend, dq0, h);')),
 c('f-spline-h', ('p->init(qstart, dq0, qend, dqh, h);', 'p->init(qstart, dq0, qend, dqh, h / 2.0);')),
 c('f-any', ('        if (is_sign_change(i)) {\n            return true;\n        }\n', '        if (!is_sign_change(i)) {\n            return false;\n        }\n')),
]
CL = """                        if (tcandidate < h / 4.0) {
                            tcandidate = h / 4.0;
                        }
                        if (tcandidate < tguess) {
                            tguess = tcandidate;
                        }
"""
CASES += [
 c('clamp-max', (CL, "                        tguess = std::max(tguess, std::max(tcandidate, h / 4.0));\n")),
 c('clamp-none', (CL, "                        tguess = tcandidate;\n")),
 c('clamp-neg', (CL, "                        tguess = std::min(tguess, tcandidate - h);\n")),
 c('f-wrongside', ('        if (hh - hl < err_tol) {\n            goto success;\n        }\n        // Otherwise', '        // Otherwise'), ('    else {\n        hl = hg;\n    }', '    else {\n        hl = hg;\n        if (hh - hl < err_tol) {\n            goto success;\n        }\n    }')),
 c('f-tie', ('    if (sign_change) {\n        // if low', '    if (hh - hl < err_tol) {\n        goto success;\n    }\n    if (sign_change) {\n        // if low')),
 c('f-zf-start', ('    this->sys->state_event_func(qend, zf);\n    // Did', '    this->sys->state_event_func(qend, z0);\n    // Did')),
 c('f-swap', ('        hh = hg;\n    }\n    // Event is between guess and high', '        hl = hg;\n    }\n    // Event is between guess and high'), ('    else {\n        hl = hg;', '    else {\n        hh = hg;')),
]
