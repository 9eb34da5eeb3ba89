import sys
sys.path.insert(0, '/verif/tools/cases')
from cv_bugs import d, H, TA, INT, CON, EXT, OUT, CTOR, SAVE, E
RULES = ['C01']
PRIV = '  private:\n    N_Vector y_checkpoint;'
def h(code):
    return (PRIV, (PRIV, '  private:\n' + code + '    N_Vector y_checkpoint;'))
SAVER = '    void save() { N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint); }\n'
CASES = [
 d('base', (INT, ('has_event', 'has_event'))),
 d('saver', h(SAVER), (INT, (SAVE, '    save();\n')), (EXT, (SAVE, '    save();\n')), (CON, (SAVE, '    save();\n'))),
 d('saver-lazy', h('    void save() {\n        N_Vector y = this->cvode_get_state();\n        if (y_checkpoint == nullptr) {\n            y_checkpoint = N_VClone(y);\n        }\n        N_VScale(1.0, y, y_checkpoint);\n    }\n'),
   (INT, (SAVE, '    save();\n')), (EXT, (SAVE, '    save();\n')), (CON, (SAVE, '    save();\n')), (TA, ('        y_checkpoint = N_VClone(this->cvode_get_state());\n        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n', '        save();\n'))),
 d('scale', (INT, ('N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint)', 'N_VScale(1.0, this->cvode_get_state(), y_checkpoint)'))),
 d('ta-local', (TA, ('    this->cvode_integrate(t_projected, has_event);\n    return t_projected - t;', '    double tf = t_projected;\n    bool event = has_event;\n    this->cvode_integrate(tf, event);\n    t_projected = tf;\n    has_event = event;\n    double const dt = tf - t;\n    return dt;'))),
 d('ta-yloc', (TA, ('        y_checkpoint = N_VClone(this->cvode_get_state());\n        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n', '        N_Vector y = this->cvode_get_state();\n        N_Vector c = N_VClone(y);\n        N_VAddConst(y, 0.0, c);\n        y_checkpoint = c;\n'))),
 d('ta-not', (TA, ('y_checkpoint == nullptr', '!y_checkpoint'))),
 d('ta-always', (TA, ('        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n    }\n', '    }\n' + SAVE)), (INT, (SAVE, '')), (CON, (SAVE, '')), (EXT, (SAVE, ''))),
 d('int-time-first', (INT, ('    t = t_projected;\n', ''), ('    if (has_event', '    t = t_projected;\n    if (has_event'))),
 d('int-early', (INT, ('    if (has_event) {\n        this->cvode_delta_int();\n    }\n', '    bool const e = has_event;\n    if (!e) {\n    } else {\n        this->cvode_delta_int();\n    }\n'))),
 d('conf-first', (CON, ('    t = t_projected;\n', ''), ('    if (has_event', '    t = t_projected;\n    if (has_event'), ('cvode_delta_ext(t_projected, xb)', 'cvode_delta_ext(t, xb)'))),
 d('conf-ta', (CON, ('cvode_delta_ext(t_projected, xb)', 'cvode_delta_ext(t + (t_projected - t), xb)'))),
 d('conf-shared', h('    void input(double at, std::list<PinValue<ValueType>> const &xb) {\n        if (has_event) {\n            this->cvode_delta_conf(xb);\n        } else {\n            this->cvode_delta_ext(at, xb);\n        }\n        t = at;\n        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n    }\n'),
   (CON, (CON[CON.index('    if'):], '    input(t_projected, xb);\n}')), (EXT, ('    t += e;\n', '    double const now = t + e;\n'), ('until(t, has', 'until(now, has'), (EXT[EXT.index('    if'):], '    input(now, xb);\n}'))),
 d('ext-order', (EXT, ('    this->cvode_reinit(y_checkpoint, t);\n    t += e;\n', '    double const t0 = t;\n    t = t0 + e;\n    this->cvode_reinit(y_checkpoint, t0);\n'))),
 d('ext-local', (EXT, ('    this->cvode_integrate_until(t, has_event);\n    if (has_event)', '    bool found = has_event;\n    this->cvode_integrate_until(t, found);\n    if (found)'))),
 d('ext-neg', (EXT, ('    if (has_event) {\n        this->cvode_delta_conf(xb);\n    } else {\n        this->cvode_delta_ext(t, xb);\n    }\n', '    if (!has_event) {\n        this->cvode_delta_ext(t, xb);\n    } else {\n        this->cvode_delta_conf(xb);\n    }\n'))),
 d('out-early', (OUT, ('    if (has_event) {\n        this->cvode_output_func(yb);\n    }\n', '    if (!has_event) {\n        return;\n    }\n    cvode_output_func(yb);\n'))),
 d('ctor-nsdmi', (CTOR, ('y_checkpoint(nullptr), has_event(false), t(0.0)', 't_projected(0.0)')), (PRIV, (PRIV, '  private:\n    N_Vector y_checkpoint = nullptr;')), ('    bool has_event;\n    double t, t_projected;', ('bool has_event;\n    double t, t_projected;', 'bool has_event = false;\n    double t = 0.0, t_projected;'))),
]
