H = 'include/adevs/solvers/cvode.h'
RULES = ['C01']
A = open('/repo/' + H).read()
def cut(a, b):
    i = A.index(a)
    return A[i:A.index(b, i)]
E = 'template <typename ValueType>\n'
TA = cut('double CVODE<ValueType>::ta()', '\n\n' + E)
INT = cut('void CVODE<ValueType>::delta_int()', '\n\n' + E)
CON = cut('void CVODE<ValueType>::delta_conf(', '\n\n' + E)
EXT = cut('void CVODE<ValueType>::delta_ext(', '\n\n' + E)
OUT = cut('void CVODE<ValueType>::output_func(', '\n\n}')
CTOR = cut('    : Atomic<ValueType, double>(), y_ch', '\n\n')
def d(i, *eds):
    l = []
    for blk, *ed in eds:
        n = blk
        for a, b in ed:
            assert a in n, (i, a)
            n = n.replace(a, b, 1)
        l.append((blk, n))
    return (i, {H: l})
SAVE = '    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n'
CASES = [
 d('ta-alias', (TA, ('N_VClone(this->cvode_get_state())', 'this->cvode_get_state()'))),
 d('ta-nocopy', (TA, ('        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n', ''))),
 d('ta-copy-after', (TA, ('        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n', ''), ('    this->cvode_integrate(t_projected, has_event);\n', '    this->cvode_integrate(t_projected, has_event);\n' + SAVE))),
 d('ta-copy-backwards', (TA, ('N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint)', 'N_VAddConst(y_checkpoint, 0.0, this->cvode_get_state())'))),
 d('ta-proj', (TA, ('return t_projected - t;', 'return t_projected;'))),
 d('ta-neg', (TA, ('return t_projected - t;', 'return t - t_projected;'))),
 d('ta-event-inf', (TA, ('return t_projected - t;', 'return has_event ? t_projected - t : adevs_inf<double>();'))),
 d('ta-time', (TA, ('return t_projected - t;', 'double const dt = t_projected - t;\n    t = t_projected;\n    return dt;'))),
 d('ta-local-event', (TA, ('    this->cvode_integrate(t_projected, has_event);\n', '    bool event = false;\n    this->cvode_integrate(t_projected, event);\n    has_event = has_event || event;\n'))),
 d('ta-local-tf', (TA, ('    this->cvode_integrate(t_projected, has_event);\n    return t_projected - t;', '    double tf = t;\n    this->cvode_integrate(tf, has_event);\n    return tf - t;'))),
 d('int-nosave', (INT, (SAVE, ''))),
 d('int-notime', (INT, ('    t = t_projected;\n', ''))),
 d('int-always', (INT, ('if (has_event)', 'if (true)'))),
 d('int-save-first', (INT, (SAVE, ''), ('    if (has_event', SAVE + '    if (has_event'))),
 d('int-save-event', (INT, (SAVE, '    if (has_event) {\n    ' + SAVE + '    }\n'))),
 d('int-save-scaled', (INT, ('0.0, y_checkpoint', '1.0, y_checkpoint'))),
 d('conf-notime', (CON, ('    t = t_projected;\n', ''))),
 d('conf-nosave', (CON, (SAVE, ''))),
 d('conf-ext-time', (CON, ('cvode_delta_ext(t_projected, xb)', 'cvode_delta_ext(t, xb)'))),
 d('conf-swap', (CON, ('if (has_event)', 'if (!has_event)'))),
 d('conf-int-too', (CON, ('        this->cvode_delta_conf(xb);\n', '        this->cvode_delta_int();\n        this->cvode_delta_ext(t_projected, xb);\n'))),
 d('conf-save-inside', (CON, ('        this->cvode_delta_conf(xb);\n', '        this->cvode_delta_conf(xb);\n    ' + SAVE), ('    t = t_projected;\n' + SAVE, '    t = t_projected;\n'))),
 d('ext-noreinit', (EXT, ('    this->cvode_reinit(y_checkpoint, t);\n', ''))),
 d('ext-reinit-state', (EXT, ('cvode_reinit(y_checkpoint, t)', 'cvode_reinit(this->cvode_get_state(), t)'))),
 d('ext-reinit-late', (EXT, ('    this->cvode_reinit(y_checkpoint, t);\n    t += e;\n', '    t += e;\n    this->cvode_reinit(y_checkpoint, t);\n'))),
 d('ext-reinit-cond', (EXT, ('    this->cvode_reinit(y_checkpoint, t);\n', '    if (e > 0.0) {\n        this->cvode_reinit(y_checkpoint, t);\n    }\n'))),
 d('ext-reinit-event', (EXT, ('    this->cvode_reinit(y_checkpoint, t);\n', '    if (!has_event) {\n        this->cvode_reinit(y_checkpoint, t);\n    }\n'))),
 d('ext-until-e', (EXT, ('cvode_integrate_until(t, has_event)', 'cvode_integrate_until(e, has_event)'))),
 d('ext-until-proj', (EXT, ('cvode_integrate_until(t, has_event)', 'cvode_integrate_until(t_projected, has_event)'))),
 d('ext-integrate', (EXT, ('cvode_integrate_until(t, has_event)', 'cvode_integrate(t, has_event)'))),
 d('ext-skip-e0', (EXT, ('    this->cvode_integrate_until(t, has_event);\n', '    if (e > 0.0) {\n        this->cvode_integrate_until(t, has_event);\n    }\n'))),
 d('ext-old-event', (EXT, ('    this->cvode_integrate_until(t, has_event);\n', '    bool found;\n    this->cvode_integrate_until(t, found);\n'))),
 d('ext-handler-e', (EXT, ('cvode_delta_ext(t, xb)', 'cvode_delta_ext(e, xb)'))),
 d('ext-nosave', (EXT, (SAVE, ''))),
 d('ext-save-early', (EXT, (SAVE, ''), ('    if (has_event', SAVE + '    if (has_event'))),
 d('ext-time', (EXT, ('    t += e;\n    this->cvode_integrate_until(t, has_event)', '    this->cvode_integrate_until(t + e, has_event)'))),
 d('ext-abs', (EXT, ('t += e;', 't = e;'))),
 d('ext-only', (EXT, ('    if (has_event) {\n        this->cvode_delta_conf(xb);\n    } else {\n        this->cvode_delta_ext(t, xb);\n    }\n', '    this->cvode_delta_ext(t, xb);\n'))),
 d('out-always', (OUT, ('    if (has_event) {\n        this->cvode_output_func(yb);\n    }\n', '    this->cvode_output_func(yb);\n'))),
 d('out-not', (OUT, ('if (has_event)', 'if (!has_event)'))),
 d('out-clear', (OUT, ('        this->cvode_output_func(yb);\n', '        this->cvode_output_func(yb);\n        has_event = false;\n'))),
 d('ctor-t', (CTOR, (', t(0.0)', ''))),
 d('ctor-ck', (CTOR, ('y_checkpoint(nullptr), ', ''))),
]
