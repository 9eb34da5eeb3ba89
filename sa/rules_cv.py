"""C01: the CVODE adapter.

The contents of the model's state vector and of the checkpoint are followed through every path; the calls into the
model and the solver are uninterpreted.  Each path is compared with what the property demands in the cases (event
signalled or not, checkpoint made or not) that its conditions admit.
"""
from itertools import product
from rules_num import *
from rules_loc import known
from rules_hyb import TH, value, admits, flat, Check, Path

CV = 'adevs::CVODE'
STATE = ('c', 'state')
SLOT = ('arr', STATE)


def cont(s, v):
    if v is None:
        return ('unk', 0)
    A = s.mem.get(('arr', v))
    return A if A is not None else ('a0', v)


def ccall(name, refs, effect):
    def h(eng, n, st):
        out = []
        recv = eng.objptr(n, st) if name.startswith('cvode') else [(st, None)]
        for s, o in recv:
            cur = [(s, [])]
            for i, a in enumerate(n['args']):
                nxt = []
                for s1, vs in cur:
                    if s1.out:
                        nxt.append((s1, vs))
                    elif i in refs:
                        nxt += [(s2, vs + [l]) for s2, l in eng.lval(a, s1)]
                    else:
                        nxt += [(s2, vs + [v]) for s2, v in eng.ev(a, s1)]
                cur = nxt
            for s1, vs in cur:
                if s1.out:
                    out.append((s1, UNDEF))
                    continue
                s1.n += 1
                r = ('ret', name, s1.n)
                x = {'ret': r, 'obj': o, 'args': tuple(vs), 'state': cont(s1, STATE)}
                r = effect(eng, s1, vs, x) or r
                s1.ev(Ev('call', name=name, cls='', obj=o, args=(), ret=r, line=n.get('l'), fn=s1.fr.fn, x=x))
                out.append((s1, r))
        return out
    return h


def moved(eng, s, vs, x):
    s.mem[SLOT] = ap('ver', num(x['ret'][2]))


def e_integrate(eng, s, vs, x):
    x['tf'], x['event'] = ('ret', 'tf', x['ret'][2]), ('ret', 'event', x['ret'][2])
    eng.write(s, vs[0], x['tf'], None, ev=False)
    eng.write(s, vs[1], x['event'], None, ev=False)
    moved(eng, s, vs, x)


def e_until(eng, s, vs, x):
    x['event'] = ('ret', 'event', x['ret'][2])
    eng.write(s, vs[1], x['event'], None, ev=False)
    moved(eng, s, vs, x)


def e_reinit(eng, s, vs, x):
    x['y'] = cont(s, vs[0])
    moved(eng, s, vs, x)


def e_clone(eng, s, vs, x):
    s.mem[('arr', x['ret'])] = ('undef',)
    s.facts[('eq',) + tuple(sorted((x['ret'], NULL), key=repr))] = False


def linear(eng, s, dst, parts, rest=num(0)):
    """dst = sum of factor times vector plus a constant"""
    live = [(c, v) for c, v in parts if norm(c) != num(0)]
    if len(live) == 1 and norm(live[0][0]) == num(1) and norm(rest) == num(0):
        A = cont(s, live[0][1])
    else:
        A = ap('lin', rest, *[ap('x', c, cont(s, v)) for c, v in live])
    s.mem[('arr', dst)] = A


N_V = {'N_VAddConst': lambda e, s, v, x: linear(e, s, v[2], [(num(1), v[0])], v[1]),
       'N_VScale': lambda e, s, v, x: linear(e, s, v[2], [(v[0], v[1])]),
       'N_VLinearSum': lambda e, s, v, x: linear(e, s, v[4], [(v[0], v[1]), (v[2], v[3])]),
       'N_VClone': e_clone, 'N_VDestroy': lambda e, s, v, x: s.mem.__setitem__(('arr', v[0]), ('undef',))}
CALLS = {'cvode_get_state': ((), lambda e, s, v, x: STATE), 'cvode_integrate': ((0, 1), e_integrate), 'cvode_integrate_until': ((1,), e_until),
         'cvode_reinit': ((), e_reinit), 'cvode_delta_int': ((), moved), 'cvode_delta_ext': ((1,), moved), 'cvode_delta_conf': ((0,), moved),
         'cvode_output_func': ((0,), lambda e, s, v, x: None)}
HANDLERS = ('cvode_delta_int', 'cvode_delta_ext', 'cvode_delta_conf')


def cvcfg():
    c = M.solver()
    for k, (r, e) in CALLS.items():
        c.models[(CV, k)] = ccall(k, r, e)
    for k, e in N_V.items():
        c.models[('', k)] = ccall(k, (), e)
    c.inline_virtual |= {(CV, x) for x in ('ta', 'output_func', 'delta_int', 'delta_ext', 'delta_conf')}
    return c


class Cv:
    def __init__(self, cx, rep):
        self.p = p = cx.prog('solvers')
        self.sm = {}
        for n in ('delta_int', 'delta_ext', 'delta_conf', 'output_func', 'ta'):
            fs = [f for f in need(p, CV, n) if f.get('body') is not None]
            if not fs:
                raise Undecided('%s has no body' % n)
            self.sm[n] = cx.summary('solvers', fs[0], 'solver:cv', cfg=cvcfg()).use(rep)
        ts = {f['n']: p.t(f['t']) for f in rec(p, CV)['f']}
        vec = [n for n, t in ts.items() if 'N_Vector' in t]
        bl = [n for n, t in ts.items() if t == 'bool']
        if len(vec) != 1:
            raise Undecided('the checkpoint is kept in another form')
        self.CK = ('f', TH, vec[0])
        # the fields written by the integration of the next step
        self.TP = self.HE = None
        for st in self.sm['ta'].normal():
            for e in flat(st.trace) or ():
                if e.name == 'cvode_integrate':
                    for k, v in st.mem.items():
                        if k[0] == 'f' and k[1] == TH:
                            if norm(v) == e.x['tf']:
                                self.TP = k
                            if norm(v) == e.x['event']:
                                self.HE = k
        db = [n for n, t in ts.items() if t == 'double']
        if self.TP is None and 't_projected' in db:
            self.TP = ('f', TH, 't_projected')
        if self.HE is None and len(bl) == 1:
            self.HE = ('f', TH, bl[0])
        if self.TP is None or self.HE is None:
            raise Undecided('the projected time or the event flag is kept in another form')
        db = [n for n in db if n != self.TP[2]]
        if len(db) != 1:
            raise Undecided('the current time is kept in another form')
        self.T = ('f', TH, db[0])
        self.always = all(self.content(st, self.ptr(st)) == ('a0', STATE) for st in self.sm['ta'].normal())

    def fld(self, st, loc):
        v = st.mem.get(loc)
        return norm(v) if v is not None else ('ld', loc)

    def ptr(self, st):
        return self.fld(st, self.CK)

    def content(self, st, ptr):
        for k, v in st.mem.items():
            if k[0] == 'arr' and norm(k[1]) == ptr:
                return v
        return ('a0', ptr)


def start(cx, rep, cv):
    for f in need(cv.p, CV, 'CVODE'):
        if f.get('body') is None or f.get('del') or f['params']:
            continue
        sm = cx.summary('solvers', f, 'solver:cv', cfg=cvcfg()).use(rep)
        ck = Check(rep, sm, 'CVODE')
        for st in sm.normal():
            for loc, w, t in ((cv.T, num(0), 'time starts at zero'), (cv.CK, NULL, 'no checkpoint exists at the start'), (cv.HE, FALSE, 'no event is signalled at the start')):
                v = st.mem.get(loc)
                if v is not None and norm(v)[0] == 'undef':
                    v = None
                ck.say(loc[2] if loc[2] in ('t', 'has_event') else t.split()[1], t, False if v is None else same(v, w), True, None, 'it is %s' % ('not set' if v is None else fmt(norm(v))[:40]))
        ck.flush()


def same(got, want):
    got, want = norm(got), norm(want)
    if got == want:
        return True
    return None if vague(got) else False


def C01(cx, rep):
    """contents of state vector, checkpoint and times on every path of the adapter's functions, compared with the calls into the solver the property demands"""
    cv = Cv(cx, rep)
    start(cx, rep, cv)
    CK0, TP0, HE0, T0 = (('ld', x) for x in (cv.CK, cv.TP, cv.HE, cv.T))
    for op, sm in cv.sm.items():
        ck = Check(rep, sm, op)
        ps = sm.fn['params']
        lst = ('obj', ('p', ps[-1]['n'], len(ps) - 1)) if ps else None
        for st in sm.normal():
            P = Path(cv, sm, st, op)
            if P.calls is None:
                rep.und(op, 'the model or the solver is called in a loop')
                continue
            evs = [e.x['event'] for e in P.calls if 'event' in e.x]
            for he, he1, nul, el in product((True, False), (True, False), (True, False), (F(3), F(0))):
                if nul and op != 'ta' or not evs and he1 or el == 0 and op != 'delta_ext':
                    continue
                env = {HE0: he, CK0: F(0) if nul else F(5), NULL: F(0), STATE: F(6), T0: F(2), TP0: F(9)}
                if op == 'delta_ext':
                    env[('p', sm.fn['params'][0]['n'], 0)] = el
                for v in evs:
                    env[v] = he1
                for e in P.calls:
                    if e.name == 'N_VClone':
                        env[e.x['ret']] = F(8)
                ok, sure = admits(P.facts, env, lambda t: False)
                if not ok:
                    continue
                case = 'event signalled' if (he1 if op == 'delta_ext' else he) else 'no event signalled'
                one(cv, ck, P, op, sm, st, case, he, he1, nul, el, env, sure, lst, (CK0, TP0, HE0, T0))
        ck.flush()


def one(cv, ck, P, op, sm, st, case, he, he1, nul, el, env, sure, lst, at0):
    CK0, TP0, HE0, T0 = at0
    ends = cv.content(st, cv.ptr(st))
    now = cv.fld(st, cv.T)
    hands = [e for e in P.calls if e.name in HANDLERS]
    last = cont(st, STATE)
    S0 = ('a0', STATE)
    integ = P.only('cvode_integrate')
    until = P.only('cvode_integrate_until')
    rein = P.only('cvode_reinit')
    outs = P.only('cvode_output_func')
    if op != 'output_func':
        ck.say('output', 'output is produced by the output function alone', not outs, sure)
    if op == 'ta':
        ck.say('integrate', 'the solver takes one step for every time advance', len(integ) == 1 and not until and not rein, sure, None, 'it takes %d' % len(integ))
        ck.say('handler', 'the time advance handles no event', not hands, sure)
        if len(integ) != 1:
            return
        I = integ[0]
        ck.say('from', 'the step starts from the present state', same(I.x['state'], S0), sure, sm.at(I))
        ck.say('projected', 'the time reached is remembered', same(cv.fld(st, cv.TP), I.x['tf']), sure, sm.at(I))
        ck.say('signalled', 'whether an event was signalled is remembered', same(cv.fld(st, cv.HE), I.x['event']), sure, sm.at(I))
        ck.say('advance', 'the time advance is the time reached less the current time', same(st.out[1], sub(I.x['tf'], T0)), sure, None, 'it is %s' % fmt(norm(st.out[1]))[:80])
        ck.say('time', 'asking for the time advance leaves the current time alone', same(now, T0), sure)
        if nul:
            p = cv.ptr(st)
            ck.say('first', 'the first checkpoint is made before the first step', True if ends == S0 and p != STATE else (None if vague(ends) or vague(p) else False), sure, sm.at(I),
                   'no storage of its own' if p == STATE or p == CK0 else 'it holds %s' % what(ends, CK0))
        else:
            ck.say('kept', 'the checkpoint survives the step', ends == S0 or same(ends, ('a0', CK0)), sure, sm.at(I), 'it holds %s' % what(ends, CK0))
        return
    if op == 'output_func':
        ck.say('when', 'output is produced exactly when an event was signalled', len(outs) == (1 if he else 0), sure, None, '%s: produced %d times' % (case, len(outs)))
        for e in outs:
            ck.say('to', 'output goes to the list given', same(e.x['args'][0], lst), sure, sm.at(e))
        ck.say('state', 'producing output changes nothing', last == S0 and now == T0 and cv.fld(st, cv.HE) == HE0 and cv.fld(st, cv.TP) == TP0 and ends == ('a0', CK0) and not hands, sure)
        return
    want = {'delta_int': 'cvode_delta_int' if he else None, 'delta_conf': 'cvode_delta_conf' if he else 'cvode_delta_ext',
            'delta_ext': 'cvode_delta_conf' if he1 else 'cvode_delta_ext'}[op]
    t1 = add(T0, ('p', sm.fn['params'][0]['n'], 0)) if op == 'delta_ext' else TP0
    hs = [e.name for e in hands]
    ck.say('handler', 'the handler is chosen by whether an event was signalled', hs == ([want] if want else []), sure, sm.at(hands[0]) if hands else None,
           '%s: %s' % (case, ', '.join(h.replace('cvode_', '') for h in hs) or 'no handler is called'))
    if op == 'delta_ext':
        ck.say('restart', 'an input in the middle of a step restarts the solver', len(rein) == 1, sure, None, 'it is restarted %d times' % len(rein))
        # nothing to integrate over when no time has passed
        ck.say('until', 'the solver integrates to the time of the input', len(until) == 1 and not integ or (None if el == 0 and not integ and not until else False), sure)
        if len(rein) != 1 or len(until) != 1:
            return
        R, U = rein[0], until[0]
        order = [P.calls.index(e) for e in [R, U] + hands]
        ck.say('order', 'restart, integration and handler come in this order', order == sorted(order), sure, sm.at(U))
        ck.say('restart-state', 'the solver restarts from the saved state', same(R.x['y'], ('a0', CK0)), sure, sm.at(R), 'from %s' % what(R.x['y'], CK0))
        ck.say('restart-time', 'the solver restarts from the saved time', same(R.x['args'][1], T0), sure, sm.at(R), 'from %s' % fmt(norm(R.x['args'][1]))[:60])
        ck.say('until-time', 'the solver integrates exactly to the time of the input', same(U.x['args'][0], t1), sure, sm.at(U), 'to %s' % fmt(norm(U.x['args'][0]))[:60])
    else:
        ck.say('restart', 'the solver is restarted only in the middle of a step', not rein and not until and not integ, sure)
    for e in hands:
        if e.name == 'cvode_delta_ext':
            ck.say('when', 'the handler is told the time of the input', same(e.x['args'][0], t1), sure, sm.at(e), 'it is told %s' % fmt(norm(e.x['args'][0]))[:60])
        if e.name != 'cvode_delta_int':
            ck.say('input', 'the handler receives the input', same(e.x['args'][-1], lst), sure, sm.at(e))
    ck.say('time', 'the current time is that of the transition', same(now, t1), sure, None, 'it is %s' % fmt(now)[:60])
    # a checkpoint made anew before every step serves as well
    ck.say('checkpoint', 'the state after the transition is saved', cv.always or same(ends, last), sure, None, '%s: it holds %s' % (case, what(ends, CK0)))


def what(A, CK0):
    if A == ('a0', STATE):
        return 'the state before'
    if A == ('a0', CK0):
        return 'the previous checkpoint'
    if A[0] == 'undef':
        return 'nothing'
    return 'another state'
