# rewritings of the CVODE wrapper that keep the behaviour
H = 'include/adevs/solvers/cvode.h'
S = open('/repo/' + H).read()
RULES = ['C01']
def sub(t, *prs):
    for a, b in prs:
        assert a in t, a
        t = t.replace(a, b)
    return t
A = S.index('template <typename ValueType>\nCVODE<ValueType>::CVODE()')
B = S.index('}  // namespace adevs', A)
P = S.index('  private:\n    N_Vector')
BODY, PRIV = S[A:B], S[P:S.index('};', P)]
def whole(i, priv, body):
    return (i, {H: [(PRIV, priv), (BODY, body)]})
def decl(*x):
    return PRIV + ''.join('    %s;\n' % y for y in x)
T = 'template <typename ValueType>\n'
C = 'CVODE<ValueType>::'
SAVE = '    N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n'
FIN = '    t = t_projected;\n' + SAVE
CASES = [
 whole('finish', decl('void finish()'), sub(BODY, (FIN, '    finish();\n')) + T + 'void ' + C + 'finish() {\n' + FIN + '}\n'),
 whole('finish-at', decl('void finish(double now)'), sub(BODY, (FIN, '    finish(t_projected);\n'), ('xb);\n    }\n' + SAVE + '}', 'xb);\n    }\n    finish(t);\n}')) + T + 'void ' + C + 'finish(double now) {\n    t = now;\n' + SAVE + '}\n'),
 whole('rename', sub(PRIV, ('has_event', 'event_pending'), ('t, t_projected', 'now, next'), ('y_checkpoint', 'saved')), sub(BODY, ('has_event', 'event_pending'), ('t_projected', 'next'), ('t(0.0)', 'now(0.0)'), (' t;', ' now;'), ('    t =', '    now ='), ('    t +=', '    now +='), (', t)', ', now)'), ('(t, ', '(now, '), ('y_checkpoint', 'saved'))),
 whole('struct', sub(PRIV, ('bool has_event;\n', ''), ('t, t_projected;', 't;\n    struct {\n        double at;\n        bool happens;\n    } next{0.0, false};')), sub(BODY, (', has_event(false)', ''), ('has_event', 'next.happens'), ('t_projected', 'next.at'))),
 whole('advance', decl('void start_from(double when)'), sub(BODY, ('    this->cvode_reinit(y_checkpoint, t);\n', '    start_from(t);\n')) + T + 'void ' + C + 'start_from(double when) {\n    this->cvode_reinit(y_checkpoint, when);\n}\n'),
 whole('ta-ensure', decl('void ensure_saved()'), sub(BODY, ('    if (y_checkpoint == nullptr) {\n        y_checkpoint = N_VClone(this->cvode_get_state());\n        N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);\n    }\n', '    ensure_saved();\n')) + T + 'void ' + C + 'ensure_saved() {\n    if (y_checkpoint != nullptr) {\n        return;\n    }\n    y_checkpoint = N_VClone(this->cvode_get_state());\n' + SAVE + '}\n'),
 whole('ta-left', PRIV, sub(BODY, ('    return t_projected - t;', '    double const left = t_projected - t;\n    return left;'))),
 whole('dtor', PRIV, sub(BODY, ('    if (y_checkpoint != nullptr) {\n        N_VDestroy(y_checkpoint);\n    }\n', '    if (!y_checkpoint) {\n        return;\n    }\n    N_VDestroy(y_checkpoint);\n    y_checkpoint = nullptr;\n'))),
 whole('dispatch', decl('void with_input(double when, std::list<PinValue<ValueType>> const &xb)'), sub(BODY, ('    if (has_event) {\n        this->cvode_delta_conf(xb);\n    } else {\n        this->cvode_delta_ext(t_projected, xb);\n    }\n', '    with_input(t_projected, xb);\n'), ('    if (has_event) {\n        this->cvode_delta_conf(xb);\n    } else {\n        this->cvode_delta_ext(t, xb);\n    }\n', '    with_input(t, xb);\n')) + T + 'void ' + C + 'with_input(double when, std::list<PinValue<ValueType>> const &xb) {\n    if (has_event) {\n        this->cvode_delta_conf(xb);\n        return;\n    }\n    this->cvode_delta_ext(when, xb);\n}\n'),
 whole('lambda', PRIV, sub(BODY, ('    t += e;\n', '    auto const step = [this](double d) { t += d; };\n    step(e);\n'))),
 whole('unqualified', PRIV, sub(BODY, ('this->', ''))),
 whole('dot', PRIV, sub(BODY, ('this->', '(*this).'))),
 whole('loopcopy', PRIV, sub(BODY, ('N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint)', 'N_VLinearSum(1.0, this->cvode_get_state(), 0.0, this->cvode_get_state(), y_checkpoint)'))),
 whole('until-var', PRIV, sub(BODY, ('    t += e;\n    this->cvode_integrate_until(t, has_event);\n', '    double const until = t + e;\n    this->cvode_integrate_until(until, has_event);\n    t = until;\n'))),
 whole('t-last', PRIV, sub(BODY, ('    t += e;\n    this->cvode_integrate_until(t, has_event);\n', '    double const until = t + e;\n    this->cvode_integrate_until(until, has_event);\n'), ('cvode_delta_ext(t, xb);\n    }\n' + SAVE, 'cvode_delta_ext(until, xb);\n    }\n' + SAVE + '    t = until;\n'))),
 whole('callback', PRIV, sub(BODY, ('    if (has_event) {\n        this->cvode_output_func(yb);\n    }\n', '    auto const produce = has_event;\n    if (produce)\n        this->cvode_output_func(yb);\n'))),
 whole('has-enum', PRIV, sub(BODY, ('    if (has_event) {\n        this->cvode_delta_int();\n    }\n', '    switch (has_event) {\n    case true:\n        this->cvode_delta_int();\n        break;\n    default:\n        break;\n    }\n'))),
]
