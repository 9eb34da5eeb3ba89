"""F01: the wrapper of functional mock-up units.

A typestate analysis: the mode of the unit (instantiated, initialization, event, continuous-time) is followed along
every path of every member function together with the time and the states last set, starting from both modes the
wrapper may be in, and compared with the wrapper's own record of the mode.  Contents of the arrays are followed
symbolically.
"""
from itertools import product
from rules_num import *
from rules_loc import known
from rules_hyb import TH, value, truth, admits, Check

ME = 'adevs::ModelExchange'
OK = ('enum', 'fmi2_status_ok', '0')
PRE = 'fmi2_import_'

# name: {argument: what is written there}
OUTS = {'new_discrete_states': {1: 'scalar'}, 'completed_integrator_step': {2: 'scalar', 3: 'scalar'},
        'get_derivatives': {1: 'array'}, 'get_event_indicators': {1: 'array'}, 'get_continuous_states': {1: 'array'},
        'get_directional_derivative': {6: 'array'}, 'get_nominals_of_continuous_states': {1: 'array'}}
COUNT = {'get_directional_derivative': 4}
PLAIN = ('set_time', 'set_continuous_states', 'enter_event_mode', 'enter_continuous_time_mode', 'enter_initialization_mode', 'exit_initialization_mode',
         'set_real', 'set_integer', 'set_boolean', 'setup_experiment', 'terminate', 'reset')
for _k in ('real', 'integer', 'boolean'):
    OUTS['get_' + _k] = {3: 'scalar'}
CALLS = list(OUTS) + list(PLAIN)


def pointee(eng, s, v):
    if v is not None and v[0] == 'addr' and ('arr', v) not in s.mem:
        return eng.read(s, v[1])
    loc, off = eng.arrloc(v)
    A = s.mem.get(loc)
    A = A if A is not None else eng.initial(s, loc)
    return A if off == num(0) else ('shift', A, off)


def fcall(name):
    outs = OUTS.get(name, {})

    def h(eng, n, st):
        out = []
        for s, vs in eng.evs(n['args'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            s.n += 1
            k = s.n
            x = {'k': k, 'args': tuple(vs), 'in': {}}
            for i, a in enumerate(n['args']):
                if '*' in eng.p.t(a['t']) or '[' in eng.p.t(a['t']):
                    x['in'][i] = pointee(eng, s, vs[i])
            for i, kind in outs.items():
                r = ('ret', '%s:%d' % (name, i), k)
                v = vs[i]
                if kind == 'scalar':
                    x['out%d' % i] = r
                    if v[0] == 'addr':
                        eng.write(s, v[1], r, None, ev=False)
                    else:
                        loc, off = eng.arrloc(v)
                        s.mem[loc] = ('st', s.mem.get(loc, eng.initial(s, loc)), off, r)
                else:
                    cnt = vs[COUNT.get(name, 2)]
                    loc, off = eng.arrloc(v)
                    old = s.mem.get(loc, eng.initial(s, loc))
                    s.mem[loc] = ap('put', ('str', name), num(k), off, cnt, old)
            s.ev(Ev('call', name=name, cls='fmi', obj=None, args=(), ret=OK, line=n.get('l'), fn=s.fr.fn, x=x))
            out.append((s, OK))
        return out
    return h


def fmicfg():
    c = M.solver()
    for k in CALLS:
        c.models[('', PRE + k)] = fcall(k)
    c.inline_virtual |= {(ME, x) for x in OPS + EVENTS}
    return c


def ismode(e):
    return e.k == 'call' and isinstance(e.x, dict) and 'in' in e.x


OPS = ('init', 'der_func', 'state_event_func', 'time_event_func', 'postStep', 'postTrialStep')
EVENTS = ('internal_event', 'external_event', 'confluent_event')
MODE = {'enter_event_mode': ('cont', 'event'), 'enter_continuous_time_mode': ('event', 'cont'),
        'enter_initialization_mode': ('start', 'init'), 'exit_initialization_mode': ('init', 'event')}
MODENAME = {'event': 'event mode', 'cont': 'continuous-time mode', 'start': 'the instantiated state', 'init': 'initialization mode'}


class Fmi:
    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep
        self.p = p = cx.prog('solvers')
        self.isN = dims(cx)
        names = set()
        for f in p.find('adevs::ode_system', 'numEvents'):
            for s in cx.summary('solvers', f, 'solver').normal():
                o = s.out[1] if s.out else None
                if o is not None and o[0] == 'ld' and o[1][0] == 'f':
                    names.add(o[1][2])
        self.isM = lambda t: t is not None and t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in names
        self.sm = {}
        for n in OPS + EVENTS + ('get_jacobian', 'get_variable', 'set_variable', 'ModelExchange', 'get_time'):
            fs = [f for f in need(p, ME, n) if f.get('body') is not None and not f.get('del') and (n != 'ModelExchange' or len(f['params']) == 2)]
            if not fs:
                raise Undecided('%s has no body' % n)
            try:
                self.sm[n] = cx.summary('solvers', fs[0], 'solver:fmi', cfg=fmicfg()).use(rep)
            except Undecided as e:
                rep.und(n, str(e))
        ts = {f['n']: p.t(f['t']) for f in rec(p, ME)['f']}
        bl = [n for n, t in ts.items() if t == 'bool']
        db = [n for n, t in ts.items() if t == 'double']
        if len(bl) != 1 or len(db) != 2:
            raise Undecided('the fields of the wrapper are not recognised')
        self.C = ('f', TH, bl[0])
        self.TN = None
        if 'get_time' in self.sm:
            for st in self.sm['get_time'].normal():
                v = norm(st.out[1])
                if v[0] == 'ld':
                    self.TN = v[1]
        if self.TN is None or self.TN[2] not in db:
            raise Undecided('the current time is kept in another form')
        self.ptrs = {n for n, t in ts.items() if t.rstrip().endswith('*') and 'import' not in t}
        self.NX = ('f', TH, [n for n in db if n != self.TN[2]][0])

    def fld(self, st, loc):
        v = st.mem.get(loc)
        return norm(v) if v is not None else ('ld', loc)

    def last(self, i):
        """the index of the time entry"""
        return self.isN(norm(add(i, num(1))))

    def count(self, i):
        return self.last(i)

    def elem(self, A, i):
        """entry i (a polynomial in the size) of an array, None when unknown"""
        for _ in range(20):
            A = norm(A)
            if A[0] == 'st':
                d = norm(sub(A[2], i))
                if d == num(0):
                    return norm(A[3])
                if isnum(d) or all(self.isN(a) or self.isM(a) for m in to_poly(d) for a, k in m):
                    A = A[1]        # another entry, unless by chance
                    continue
                return None
            if A[0] == 'ap' and A[1] == 'put':
                nm, k, off, cnt, old = ap_payload(A)
                lo, hi = norm(sub(i, off)), norm(sub(i, add(off, cnt)))
                if isnum(hi) and hi[1] >= 0:
                    A = old
                    continue
                return None
            if A[0] == 'a0':
                return ('elt', A, i)
            return None
        return None

    def arr(self, st, ptr):
        for k, v in st.mem.items():
            if k[0] == 'arr' and norm(k[1]) == ptr:
                return v
        return ('a0', ptr)


def timeof(f, v, q):
    """whether a term is the time entry of the array q"""
    v = norm(v)
    if v[0] == 'elt' and norm(v[1]) == ('a0', q) and f.last(v[2]):
        return True
    return False if known(v) else None


def statesof(f, e, q):
    """whether a call passes the states of q"""
    ptr, A, cnt = norm(e.x['args'][1]), norm(e.x['in'].get(1, ('unk', 0))), norm(e.x['args'][2])
    if A == ('a0', q) and f.count(cnt):
        return True
    if A == ('a0', q) and not vague(cnt) or A[0] == 'a0' and A[1] != q or ptr[0] == 'padd':
        return False
    return None if vague(A) or vague(cnt) or A[0] != 'a0' else False


class Run:
    """the unit's mode along one path, from one initial mode"""
    def __init__(self, f, ck, P, op, mode, q, sure):
        self.f, self.ck, self.op, self.q, self.sure = f, ck, op, q, sure
        self.mode = mode
        self.time = None        # (event, is it the time of q)
        self.states = None
        self.sm, self.st = P
        self.seq = []

    def say(self, key, text, ok, e=None, why=''):
        self.ck.say(key, text, ok, self.sure, self.sm.at(e) if e is not None else None, why)

    def walk(self, trace, inner=False):
        for e in trace:
            if e.k == 'loop':
                for p in e.x.paths:
                    if any(ismode(x) for x in events(p.trace)):
                        self.walk(p.trace, True)
                continue
            if ismode(e):
                self.call(e, inner)

    def call(self, e, inner):
        n = e.name
        self.seq.append(e)
        if n in MODE:
            if inner:
                raise Undecided('%s: the mode of the unit changes in a loop' % self.op)
            a, b = MODE[n]
            self.say('mode:' + n, 'the unit is in %s when %s is called' % (MODENAME[a], n), self.mode == a, e, 'it may be in %s' % MODENAME[self.mode])
            self.mode = b
            return
        if n == 'new_discrete_states':
            self.say('mode:' + n, 'discrete updates take place in event mode', self.mode == 'event', e, 'the unit may be in %s' % MODENAME[self.mode])
        elif n == 'set_time':
            self.time = timeof(self.f, e.x['args'][1], self.q) if self.q else None
            if self.mode not in ('cont', 'event'):
                self.say('mode:' + n, 'time is set after initialization', False, e)
        elif n == 'set_continuous_states':
            self.say('mode:' + n, 'states are set in continuous-time mode', self.mode == 'cont', e, 'the unit may be in %s' % MODENAME[self.mode])
            self.states = statesof(self.f, e, self.q) if self.q else None
            self.hasstates = True
        elif n in ('get_derivatives', 'get_event_indicators', 'get_directional_derivative', 'completed_integrator_step'):
            what = {'get_derivatives': 'derivatives', 'get_event_indicators': 'event indicators', 'get_directional_derivative': 'entries of the Jacobian'}.get(n)
            text = '%s are taken' % what if what else 'a step is completed'
            self.say('mode:' + n, '%s in continuous-time mode' % text, self.mode == 'cont', e, 'the unit may be in %s' % MODENAME[self.mode])
            ts = [x for x in self.seq if x.name == 'set_time']
            ss = [x for x in self.seq if x.name == 'set_continuous_states']
            self.say('time:' + n, '%s after the time of the point has been set' % text, False if not ts else self.time, e, '' if ts else 'the time is not set')
            self.say('states:' + n, '%s after the states of the point have been set' % text, False if not ss else self.states, e, '' if ss else 'the states are not set')
        elif n == 'get_continuous_states':
            if self.mode not in ('cont', 'event'):
                self.say('mode:' + n, 'states are read after initialization', False, e)


INFO = ('c', 'eventinfo')
INFOF = ('newDiscreteStatesNeeded', 'terminateSimulation', 'nominalsOfContinuousStatesChanged', 'valuesOfContinuousStatesChanged', 'nextEventTimeDefined', 'nextEventTime')


class View:
    pass


def subst_state(st, V):
    """the path with the last event information named"""
    fun = lambda y: INFO if y == V or y[0] == 'cfin' and V[0] == 'phi' and y[1:] == V[1:] else None
    r = View()
    r.trace, r.imp = st.trace, st.imp
    r.out = tuple(subst(x, fun) if isinstance(x, tuple) else x for x in st.out) if st.out else st.out
    r.facts = {subst(norm(a), fun): s for a, s in st.facts.items()}
    r.mem = {k: subst(norm(v), fun) if k[0] == 'f' else v for k, v in st.mem.items()}
    return r


def iterated(f, st):
    """(V, done): the last event information; whether updates went on until none was needed"""
    last = None
    for e in st.trace:
        if e.k == 'loop':
            hit = [x for p in e.x.paths for x in events(p.trace, 'call', 'new_discrete_states') if ismode(x)]
            if hit:
                last = e
        elif ismode(e) and e.name == 'new_discrete_states':
            last = e
    if last is None:
        return None, False
    if last.k == 'call':
        V = [last.x['out1']]
    else:
        L = last.x
        V = []
        for loc, (i, t, u) in L.updates.items():
            if all(v is not None and (norm(v)[0] == 'ret' and norm(v)[1] == 'new_discrete_states:1') for _, v in u):
                V.append(norm(t))
                V.append(('cfin', t[1], t[2]) if t[0] == 'phi' else norm(t))
        if not V:
            return None, None
        if L.partial:
            return None, None
    fs = {norm(a): s for a, s in st.facts.items()}
    for a, s in fs.items():
        if a[0] in ('zero', 't') and a[1][0] == 'get' and a[1][2] == 'newDiscreteStatesNeeded' and norm(a[1][1]) in V:
            return norm(a[1][1]), s == (a[0] == 'zero')
    if any(vague(a) and contains(a, lambda y: y[0] == 'get' and y[2] == 'newDiscreteStatesNeeded') for a in fs):
        return None, None
    return V[0], False


def F01(cx, rep):
    """typestate of the unit along every path of the wrapper, from every mode it may be in; symbolic contents of the state, derivative and Jacobian arrays; dispatch of variable access by type"""
    f = Fmi(cx, rep)
    for op in OPS + EVENTS + ('get_jacobian',):
        if op in f.sm:
            oper(f, rep, op, f.sm[op])
    if 'ModelExchange' in f.sm:
        ctor(f, rep, f.sm['ModelExchange'])
    for op in ('get_variable', 'set_variable'):
        if op in f.sm:
            variable(f, rep, op, f.sm[op])


def oper(f, rep, op, sm):
    ck = Check(rep, sm, op)
    ps = sm.fn['params']
    q = ('p', ps[0]['n'], 0)
    other = ('p', ps[1]['n'], 1) if op in ('der_func', 'state_event_func', 'get_jacobian') else None
    N1 = sub(('ld', ('f', TH, 'N')), num(1))
    for st in sm.normal():
        facts = {norm(a): s for a, s in st.facts.items()}
        # terms that conditions may mention
        tq, sizes, jn = None, set(), None
        for a in facts:
            contains(a, lambda y: sizes.add(y) if y[0] in ('ld',) else False)
        V, done = iterated(f, st)
        if V is not None:
            st = subst_state(st, V)
            facts = {norm(a): s for a, s in st.facts.items()}
        for cont, later, nx, ev, dim in product((True, False), (True, False), (F(7), F(10 ** 9)), (True, False), (0, 1, 2)):
            if op == 'init' and cont or op in ('postStep', 'postTrialStep') and not cont:
                continue
            if dim != 2 and op != 'state_event_func' or nx != 7 and op != 'time_event_func' or not ev and op != 'postStep' and V is None:
                continue
            env = {('ld', f.C): cont, ('ld', f.TN): F(3), ('ld', f.NX): nx, NULL: F(0)}
            if other is not None:
                env[other] = F(4)
            jac = [y for y in sizes if y[1][0] == 'f' and y[1][2] not in (f.C[2], f.TN[2], f.NX[2])]
            for y in jac:
                if f.isN(y) or f.isM(y):
                    continue
                if op == 'get_jacobian':
                    env[y] = F(4)
            for y in sizes:
                if f.isM(y):
                    env[y] = F(dim)
                elif f.isN(y):
                    env[y] = F(3)

            def timeq(y):
                if y[0] == 'elt' and norm(y[1]) == ('a0', q):
                    env[y] = (F(5) if later else F(3)) if f.last(y[2]) else F(13)
                return False
            for a in facts:
                contains(a, timeq)
            if st.out and st.out[1] is not None:
                contains(norm(st.out[1]), timeq)
            for e in events(st.trace, 'call', 'completed_integrator_step'):
                if ismode(e):
                    env[e.x['out2']] = F(1) if ev else F(0)
                    env[e.x['out3']] = F(0)
            if V is not None:
                env[('get', INFO, 'nextEventTime')] = F(9)
                env[('get', INFO, 'nextEventTimeDefined')] = F(1) if ev else F(0)
            ok, sure = admits({a: s for a, s in facts.items() if not mentions(a)}, env, lambda t: f.isN(t) or f.isM(t))
            if not ok:
                continue
            run = Run(f, ck, (sm, st), op, 'start' if op == 'init' else 'cont' if cont else 'event', q, sure)
            run.walk(st.trace)
            effects(f, ck, run, op, sm, st, q, other, env, sure, later, ev, dim, V, done)
            if op != 'time_event_func':
                c = value(f.fld(st, f.C), env)
                ck.say('record', 'the wrapper knows the mode the unit is in', None if c is None else c == (run.mode == 'cont'), sure, None,
                       'it takes it for %s while it is in %s' % ('continuous-time mode' if c else 'event mode', MODENAME[run.mode]))
    if op == 'get_jacobian':
        for st in sm.normal():
            facts = {norm(a): s for a, s in st.facts.items()}
            jacret(f, ck, sm, st, facts, other)
    ck.flush()


def mentions(a):
    """conditions on the outcome of calls, which are judged elsewhere"""
    return contains(a, lambda y: y[0] == 'get' and y[2] in INFOF and not (y[1] == INFO and y[2] in ('nextEventTimeDefined', 'nextEventTime'))) or contains(a, lambda y: y == OK) or a[0] == 'complete' or contains(a, lambda y: y[0] == 'ix')


def effects(f, ck, run, op, sm, st, q, other, env, sure, later, ev, dim, V, done):
    calls = run.seq
    names = [e.name for e in calls]
    nx = f.fld(st, f.NX)
    if op == 'der_func':
        g = [e for e in calls if e.name == 'get_derivatives']
        ok = len(g) == 1
        ck.say('derivatives', 'the derivatives are those the unit gives', ok, sure, None, 'they are taken %d times' % len(g))
        A = f.arr(st, other)
        if ok:
            a = g[0].x['args']
            ck.say('derivatives:to', 'the derivatives fill the array but for its last entry', norm(a[1]) == other and f.count(norm(a[2])), sure, sm.at(g[0]))
        t = lastof(f, A)
        ck.say('derivatives:time', 'the derivative of time is one', None if t is None else (t == num(1) or (None if vague(t) else False)), sure, None, 'it is %s' % (fmt(t)[:50] if t is not None else '?'))
    elif op == 'state_event_func':
        g = [e for e in calls if e.name == 'get_event_indicators']
        if not dim:
            return
        ck.say('indicators', 'the event functions are those the unit gives', len(g) == 1, sure, None, 'they are taken %d times' % len(g))
        if g:
            a = g[0].x['args']
            ck.say('indicators:to', 'the event indicators fill the array', norm(a[1]) == other and f.isM(norm(a[2])), sure, sm.at(g[0]))
    elif op == 'time_event_func':
        v = value(norm(st.out[1]), env) if st.out else None
        nxv = env[('ld', f.NX)]
        # with no time of the state on the path it cannot enter the result
        tq = 5 if later else 3
        want = (nxv - tq) if nxv < 10 ** 8 else None
        ck.say('next', 'the next time event is the one announced, counted from the present', None if v is None else (v == want if want is not None else v > 10 ** 8), sure, None, 'it is %s' % fmt(norm(st.out[1]))[:80])
        ck.say('next:calls', 'looking up the time event leaves the unit alone', not calls, sure)
    elif op == 'postStep':
        if not later:
            ck.say('complete:still', 'a step is completed only when time has moved on', 'completed_integrator_step' not in names, sure, None, 'it is completed at the same time')
            return
        n = names.count('completed_integrator_step')
        ck.say('complete', 'every step forward in time is completed', n == 1, sure, None, 'it is completed %d times' % n)
        t = f.fld(st, f.TN)
        ck.say('now', 'the current time is that of the step', timeof(f, t, q), sure, None, 'it is %s' % fmt(t)[:50])
        if n == 1:
            if ev:
                ck.say('immediate', 'an immediate event is the next time event', timeof(f, nx, q), sure, None, 'the next one is %s' % fmt(nx)[:50])
            else:
                ck.say('immediate:none', 'without a request the next time event stands', nx == ('ld', f.NX) or (None if vague(nx) else False), sure)
    elif op == 'postTrialStep':
        ss = [e for e in calls if e.name == 'set_continuous_states']
        ts = [e for e in calls if e.name == 'set_time']
        ck.say('restore:states', 'the states of the trial are replaced', run.states if ss else False, sure)
        ck.say('restore:time', 'the time of the trial is replaced', run.time if ts else False, sure)
        ck.say('restore:only', 'restoring completes no step', 'completed_integrator_step' not in names and 'new_discrete_states' not in names, sure)
    elif op == 'get_jacobian':
        jacobian(f, ck, run, sm, st, q, other, sure)
    if op in EVENTS or op == 'init':
        first = [e for e in st.trace if ismode(e) and e.name == 'new_discrete_states']
        if first:
            v0 = norm(first[0].x['in'].get(1, ('unk', 0)))
            fs, base = {}, v0
            while base[0] == 'with':
                for k, v in base[2]:
                    fs.setdefault(k, norm(v))
                base = base[1]
            for k in ('newDiscreteStatesNeeded', 'nextEventTimeDefined'):
                if base[0] == 'dflt':
                    v = fs.get(k)
                    good = False if v is None else v in (num(0), FALSE) or (False if isnum(v) or v == TRUE else None)
                    ck.say('blank', 'what a unit leaves unset in its answer says that nothing is needed or announced', good, sure, sm.at(first[0]), '%s is %s' % (k, 'not set' if v is None else 'set to %s' % fmt(v)[:20]))
        ck.say('iterate', 'discrete updates are repeated until the unit needs no more', done, sure, None, 'they may stop before')
        v = value(nx, env)
        if V is not None or done is False:
            w = 'the next one is %s' % fmt(nx)[:60]
            if ev or V is None:
                ck.say('announced', 'a time event the unit announces is the next one', v == 9 if v is not None else None, sure, None, w)
            else:
                ck.say('announced:none', 'when none is announced there is no time event', v > 10 ** 8 if v is not None else None, sure, None, w)
        else:
            ck.say('announced', 'a time event the unit announces is the next one', None, sure)
        g = [k for k, e in enumerate(calls) if e.name == 'get_continuous_states']
        u = [k for k, e in enumerate(calls) if e.name == 'new_discrete_states']
        good = bool(g) and (not u or g[-1] > u[-1])
        ck.say('update', 'the states after the event are taken from the unit', good, sure, None, 'they are not' if not g else 'they are taken before the event')
        if good:
            a = calls[g[-1]].x['args']
            ck.say('update:to', 'the states fill the array but for its last entry', norm(a[1]) == q and f.count(norm(a[2])), sure, sm.at(calls[g[-1]]))
        t = lastof(f, f.arr(st, q))
        if op == 'init':
            ck.say('time', 'the last state variable is the time', None if t is None else (t in (('ld', f.TN), num(0)) or (None if vague(t) else False)), sure, None, 'it is %s' % (fmt(t)[:50] if t is not None else '?'))
            ck.say('start', 'simulation starts in continuous-time mode', run.mode == 'cont', sure)
        else:
            same_ = t is not None and t[0] == 'elt' and t[1] == ('a0', q)
            ck.say('time', 'an event leaves the time alone', None if t is None else (same_ or timeof(f, t, q) or (None if vague(t) else False)), sure)


def lastof(f, A):
    """the time entry of an array"""
    A = norm(A)
    idx = set()

    def look(y):
        if y[0] == 'st':
            idx.add(y[2])
        return False
    contains(A, look)
    cand = [i for i in idx if f.last(norm(i))]
    if A[0] == 'ap' and A[1] == 'put' or A[0] == 'st':
        B = A
        while B[0] == 'st':
            B = norm(B[1])
        if B[0] == 'ap' and B[1] == 'put':
            c = norm(ap_payload(B)[3])
            if f.last(c):
                cand.append(c)
    for i in cand:
        return f.elem(A, norm(i))
    if idx and all(f.isN(a) or f.isM(a) for i in idx for m in to_poly(norm(i)) for a, k in m):
        return ('str', 'not set')
    return ('elt', A, num(-1)) if A[0] == 'a0' else None


def square(f, t, c=0):
    """the square of the number of state variables plus c"""
    p = dict(to_poly(t))
    for m, k in list(p.items()):
        if len(m) == 1 and m[0][1] == 2 and f.isN(m[0][0]) and k == 1:
            del p[m]
            return norm(mk_poly(p)) == num(c)
    return False


def jacret(f, ck, sm, st, facts, J):
    calls = [e for e in events(st.trace, 'call') if ismode(e)]
    jn = fact0(facts, J)
    sup = None
    for a, s in facts.items():
        if a[0] in ('eq', 'zero', 't') and contains(a, lambda y: y[0] == 'ld' and y[1][0] == 'f' and y[1][2] in f.ptrs):
            sup = (not s) if a[0] in ('eq', 'zero') else s
    v = norm(st.out[1]) if st.out else None
    if v in (TRUE, FALSE):
        if sup is not None:
            ck.say('supported', 'whether Jacobians are supported is told', (v == TRUE) == sup, True)
        elif jn is True:
            ck.say('supported', 'whether Jacobians are supported is told', False, True, None, 'the answer is always the same')
    # without an array or without support nothing is computed
    if jn is True or sup is False:
        ck.say('supported:only', 'without an array or support the unit is left alone', not calls, True)


def fact0(facts, J):
    for a, s in facts.items():
        if a[0] in ('eq', 'zero', 't') and J in a[1:]:
            return s if a[0] in ('eq', 'zero') else not s
    return None


def jacobian(f, ck, run, sm, st, q, J, sure):
    facts = {norm(a): s for a, s in st.facts.items()}
    if fact0(facts, J) is True:
        return
    cols = []
    for e in st.trace:
        if e.k == 'loop':
            for p in e.x.paths:
                for x in p.trace:
                    if ismode(x) and x.name == 'get_directional_derivative':
                        cols.append((e.x, p, x))
        elif ismode(e) and e.name == 'get_directional_derivative':
            cols.append((None, None, e))
    if not cols:
        ck.say('columns', 'every column of the Jacobian is computed', False, sure, None, 'none is')
        return
    if len(cols) != 1 or cols[0][0] is None:
        ck.say('columns', 'every column of the Jacobian is computed', None, sure)
        return
    L, p, e = cols[0]
    full_ = L.range is not None and norm(L.range[0]) == num(0) and f.count(norm(L.range[1])) and not L.exits and len(L.paths) == 1
    ck.say('columns', 'every column of the Jacobian is computed', full_ or (None if L.range is None else False), sure, sm.at(e), 'from %s to %s' % tuple(fmt(norm(x))[:30] for x in L.range) if L.range else '')
    ix = [y for y in [norm(e.x['in'].get(1, ('unk', 0)))]]
    i = ix[0]
    isix = i[0] == 'ix'
    ck.say('columns:unknown', 'column i is that of state i', isix or (None if vague(i) else False), sure, sm.at(e), 'the unit is asked for %s' % fmt(i)[:40])
    ck.say('columns:count', 'a column has an entry for every derivative', norm(e.x['args'][2]) == num(1) and f.count(norm(e.x['args'][4])) or (None if vague(norm(e.x['args'][4])) else False), sure, sm.at(e))
    if isix:
        o = norm(e.x['args'][6])
        if o[0] == 'padd' and o[1] == J:
            pl = dict(to_poly(o[2]))
            # i times the number of state variables
            good = len(pl) == 1 and all(sorted([f.isN(a) for a, k in m]) == [False, True] and all(k == 1 for a, k in m) and any(a == i for a, k in m) and c == 1 for m, c in pl.items())
            ck.say('columns:place', 'columns are as long as the state with time', good or (None if vague(o[2]) else False), sure, sm.at(e), 'column i starts at %s' % fmt(o[2])[:60])
        else:
            ck.say('columns:place', 'columns are as long as the state with time', None, sure)
    # the derivative of time is constant: nothing else is put into the array
    A = norm(f.arr(st, J))
    while A[0] == 'st':
        v = norm(A[3])
        ck.say('zeros:time', 'entries no derivative fills are zero', v == num(0) or (None if vague(v) else False), sure, sm.at(e), 'entry %s is %s' % (fmt(norm(A[2]))[:50], fmt(v)[:40]))
        A = norm(A[1])
    # the rest is zero
    jl = [(k, v) for k, v in L.updates.items() if k[0] == 'arr' and norm(k[1]) == J]
    if jl:
        init = norm(jl[0][1][0])
        b = init
        ok = None
        for _ in range(4):
            if b[0] == 'st':
                if norm(b[3]) != num(0):
                    ck.say('zeros:time', 'entries no derivative fills are zero', None if vague(norm(b[3])) else False, sure, sm.at(e), 'entry %s is %s' % (fmt(norm(b[2]))[:50], fmt(norm(b[3]))[:40]))
                b = norm(b[1])
        if islam(b):
            s, en, body, base = ap_payload(b)
            whole = norm(s) == num(0) and square(f, norm(en))
            ok = True if whole and norm(body) == num(0) else (None if vague(b) else False)
        elif b[0] == 'fillall' and b[1] == num(0):
            ok = True
        elif b == ('a0', J):
            ok = False
        ck.say('zeros', 'entries no derivative fills are zero', ok, sure, sm.at(e), 'the array is not cleared as a whole')


def ctor(f, rep, sm):
    ck = Check(rep, sm, 'ModelExchange')
    sys_ = rec(f.p, 'adevs::ode_system')
    for st in sm.normal():
        facts = {norm(a): s for a, s in st.facts.items()}
        order = {}
        for k, e in enumerate(events(st.trace, 'call')):
            order.setdefault(e.name.replace(PRE, ''), (k, e))
        usable(f, ck, sm, st, facts)
        seq = [order.get(n) for n in ('create_dllfmu', 'instantiate', 'setup_experiment')]
        ck.say('setup', 'the unit is loaded, instantiated and set up in this order', all(seq) and [x[0] for x in seq] == sorted(x[0] for x in seq), True)
        n = m = None
        for k, v in st.mem.items():
            if k[0] == 'f' and f.isN(('ld', k)):
                n = norm(v)
            if k[0] == 'f' and f.isM(('ld', k)):
                m = norm(v)
        ret = lambda t, nm: t is not None and t[0] == 'ret' and t[1] == PRE + nm
        variables(f, ck, sm, st)
        kn = n is not None and ret(norm(sub(n, num(1))), 'get_number_of_continuous_states')
        ck.say('size', 'the state is that of the unit and the time', kn or (None if n is not None and vague(n) else False), True, None, 'its size is %s' % (fmt(n)[:60] if n else '?'))
        ck.say('size:events', 'the event functions are those of the unit', ret(m, 'get_number_of_event_indicators') or (None if m is not None and vague(m) else False), True, None, 'their number is %s' % (fmt(m)[:60] if m else '?'))
        c, t, x = (f.fld(st, l) for l in (f.C, f.TN, f.NX))
        ck.say('record', 'the wrapper starts outside continuous-time mode', c == FALSE or (None if vague(c) else False), True)
        ck.say('time', 'time starts at zero', t == num(0) or (None if vague(t) else False), True)
        xv = value(x, {})
        ck.say('next', 'no time event is announced at the start', xv is not None and xv > 10 ** 8, True)
        se = order.get('setup_experiment')
        if se and isinstance(se[1].x, dict):
            v = norm(se[1].x['args'][3])
            ck.say('time:unit', 'the unit starts at the same time', v == t or (None if vague(v) else False), True, sm.at(se[1]))
            tol = [('p', x['n'], k) for k, x in enumerate(sm.fn['params']) if f.p.t(x['t']) == 'double']
            a = [norm(x) for x in se[1].x['args']]
            if len(tol) == 1:
                good = a[1] in (TRUE, num(1)) and a[2] == tol[0]
                ck.say('tolerance', 'the unit is told the tolerance', good or (None if vague(a[1]) or vague(a[2]) else False), True, sm.at(se[1]))
            ck.say('stop', 'the unit is not told of an end of the experiment', a[4] in (FALSE, num(0)) or (None if vague(a[4]) else False), True, sm.at(se[1]))
        if kn:
            ncs = norm(sub(n, num(1)))
            # the arrays of references for the Jacobian
            for k, v in st.mem.items():
                if k[0] == 'arr' and norm(k[1])[0] not in ('p', 'addr') and islam(norm(v)):
                    s, e, body, base = ap_payload(norm(v))
                    b = norm(body)
                    if contains(b, lambda y: y == T.BIND):
                        good = norm(s) == num(0) and norm(e) == ncs and norm(sub(b, T.BIND)) == ncs
                        ck.say('references', 'derivative i has the reference after those of the states', good or (None if vague(b) or vague(norm(e)) else False), True, None, 'entry i is %s' % fmt(b)[:60])
                    else:
                        good = norm(s) == num(0) and norm(e) == ncs and b == num(1)
                        ck.say('directions', 'directions are unit vectors', good or (None if vague(b) or vague(norm(e)) else False), True)
    ck.flush()


def usable(f, ck, sm, st, facts):
    """a unit that cannot be used is refused"""
    eqs = [(a, s) for a, s in facts.items() if a[0] in ('eq', 'zero', 't')]

    def call(y, n):
        return contains(y, lambda z: z[0] == 'ret' and str(z[1]) == n)

    def known_(n, en, want):
        hit = [(a, s) for a, s in eqs if call(a, n)]
        if not any(x.name == n for x in events(st.trace, 'call')):
            return None if n.endswith('fmu_kind') else False
        if not hit:
            return False
        for a, s in hit:
            c = [y for y in a[1:] if isinstance(y, tuple) and y[0] == 'enum']
            if a[0] == 'eq' and c:
                if c[0][1] == en and s == want:
                    return True
                if c[0][1] == en:
                    return False
                if s:
                    return want is False
                continue
            break
        else:
            return False
        return None
    ck.say('refused:version', 'a unit of another version of the standard is refused', known_('fmi_import_get_fmi_version', 'fmi_version_2_0_enu', True), True, None, 'it is accepted')
    k = known_(PRE + 'get_fmu_kind', 'fmi2_fmu_kind_cs', False)
    k = True if k is not True and known_(PRE + 'get_fmu_kind', 'fmi2_fmu_kind_me', True) is True else k
    ck.say('refused:kind', 'a unit without model exchange is refused', k, True, None, 'it is accepted')
    hit = [(a, s) for a, s in eqs if call(a, PRE + 'parse_xml')]
    ok = False
    for a, s in hit:
        ok = (not s if a[0] in ('eq', 'zero') else s) if a[0] != 'eq' or NULL in a[1:] else None
    ck.say('refused:parse', 'a unit whose description cannot be read is refused', ok, True, None, 'it is accepted')
    hit = [(a, s) for a, s in facts.items() if a[0] in ('eq', 'zero', 't', 'pos', 'ipos') and call(a, PRE + 'get_capability')]
    cap = None
    for a, s in hit:
        cap = not s if a[0] == 'zero' else s if a[0] != 'eq' else None
    arr = any(k[0] == 'f' and len(k) > 2 and k[1] == TH and k[2] in f.ptrs and norm(v)[0] in ('new', 'newarr') for k, v in st.mem.items())
    asked = any(x.name == PRE + 'get_capability' for x in events(st.trace, 'call'))
    ck.say('capability', 'a Jacobian is offered exactly by units that provide directional derivatives', arr == cap if cap is not None else (False if arr and not hit or not asked else None), True, None,
           'one is offered without them' if arr else 'none is offered')


def variables(f, ck, sm, st):
    """every variable of the unit is entered under its name with its reference and type"""
    for e in st.trace:
        if e.k != 'loop' or not any(x.name == PRE + 'get_variable' for p in e.x.paths for x in p.trace if x.k == 'call'):
            continue
        L = e.x
        size = L.range is not None and norm(L.range[0]) == num(0) and norm(L.range[1])[0] == 'ret' and norm(L.range[1])[1] == PRE + 'get_variable_list_size'
        ck.say('variables', 'every variable of the unit can be accessed', (size and not L.exits) or (None if L.range is None else False), True, sm.at(e))
        for p in L.paths:
            if p.out is not None and p.out[0] == 'dead':
                continue
            r, var = {}, None
            for x in p.trace:
                if x.k == 'call' and x.name.startswith(PRE + 'get_variable'):
                    r[x.name[len(PRE):]] = x
            g = r.get('get_variable')
            if g is None:
                ck.say('variables', 'every variable of the unit can be accessed', None, True)
                continue
            ix = norm(val(g.args[1]))
            ck.say('variables:each', 'every variable of the unit is looked at', ix[0] == 'ix' or (None if vague(ix) else False), True, sm.at(g))
            stored = [tuple(norm(v) for v in ([val(a) for a in x.args] + [x.obj]) if v is not None) for x in p.trace if x.k in ('wr', 'mut', 'touch')]
            for n, t in (('get_variable_name', 'name'), ('get_variable_vr', 'reference'), ('get_variable_base_type', 'type')):
                x = r.get(n)
                good = x is not None and norm(val(x.args[0])) == norm(g.ret) and any(contains(q, lambda y: y == x.ret) for q in stored)
                ck.say('variables:' + t, 'a variable is entered with its %s' % t, good, True, sm.at(g))


TYPES = {'fmi2_base_type_real': 'real', 'fmi2_base_type_int': 'integer', 'fmi2_base_type_bool': 'boolean'}


def variable(f, rep, op, sm):
    ck = Check(rep, sm, op)
    ps = sm.fn['params']
    name = ('p', ps[0]['n'], 0)
    verb = op[:3]
    for st in sm.normal():
        facts = {norm(a): s for a, s in st.facts.items()}
        calls = [e for e in events(st.trace, 'call') if ismode(e)]
        types, tfs = {}, set()
        sure = True
        for a, s in facts.items():
            if a[0] == 'eq':
                en = [y for y in a[1:] if y[0] == 'enum' and y[1] in TYPES]
                ot = [y for y in a[1:] if not (y[0] == 'enum')]
                if en and ot and contains(ot[0], lambda y: y == name):
                    types[en[0][1]] = s
                    contains(ot[0], lambda y: tfs.add(y[2]) if y[0] in ('f', 'get') and len(y) == 3 and isinstance(y[2], str) and y[1] != TH else False)
                    continue
            if not contains(a, lambda y: y == OK) and a[0] not in IRR:
                sure = False
        for ty, kind in TYPES.items():
            if types.get(ty) is False or (types.get(ty) is None and any(types.values())):
                continue
            got = [e.name for e in calls]
            if types.get(ty) is None and not calls:
                # the type of the variable does not matter on this path
                pass
            ck.say(kind, 'a variable of type %s is accessed as such' % kind, got == ['%s_%s' % (verb, kind)], sure, sm.at(calls[0]) if calls else None, 'by %s' % (', '.join(got) or 'no call'))
        for e in calls:
            kinds = [ty for ty, k in TYPES.items() if e.name == '%s_%s' % (verb, k)]
            if kinds and not types.get(kinds[0]) and len(calls) == 1:
                rest = set(TYPES) - {kinds[0]}
                ck.say('only', 'a variable is accessed as %s only when that is its type' % TYPES[kinds[0]], False if types.get(kinds[0]) is False or all(types.get(x) is False for x in rest) else None, sure, sm.at(e),
                       'variables of other types are, too')
            r = norm(e.x['in'].get(1, ('unk', 0)))
            good = contains(r, lambda y: y == name) and contains(r, lambda y: y[0] in ('f', 'get') and len(y) == 3 and isinstance(y[2], str) and y[2] not in tfs)
            ck.say('reference', 'the variable is found by its reference', (good and norm(e.x['args'][2]) == num(1)) or (None if vague(r) else False), sure, sm.at(e), 'by %s' % fmt(r)[:60])
            if verb == 'get':
                v = norm(st.out[1]) if st.out else None
                ck.say('value', 'the value read is returned', v == e.x['out3'] or (None if v is None or vague(v) or contains(v, lambda y: y == e.x['out3']) else False), sure, sm.at(e), 'it is %s' % (fmt(v)[:60] if v else '?'))
            else:
                v = norm(e.x['in'].get(3, ('unk', 0)))
                ac = [x for x in events(st.trace, 'call', 'any_cast')]
                good = any(norm(x.ret) == v and any(a.val is not None and contains(norm(a.val), lambda y: y == ('p', ps[1]['n'], 1)) for a in x.args) for x in ac)
                ck.say('value', 'the value given is written', good or (None if vague(v) or not known(v) else False), sure, sm.at(e), 'it is %s' % fmt(v)[:60])
    ck.flush()


IRR = ('complete', 'done', 'more', 'nn')
