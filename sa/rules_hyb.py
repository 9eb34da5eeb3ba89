"""H01, H02: the hybrid model.

The contents of the two state arrays and of the flags are followed symbolically through every path of the
transition functions; the calls to the system, the integrator and the locator are uninterpreted.  Each path
is compared with what the property demands in every case (event pending or not, output held back or not,
time left or not, input at once or later, event found or not) that the path's conditions admit.
"""
from itertools import product
from rules_num import *
from rules_loc import arrarg, m_advance, known

HY = 'adevs::Hybrid'
TH = ('this',)


# ------------------------------------------------------------------ models
def hcall(name, effect):
    """a call to the system, solver or locator; effect(eng, state, loc/array pairs, values) sets what it changes"""
    def h(eng, n, st):
        out = []
        for s, o in eng.objptr(n, st):
            cur = [(s, [])]
            for i, a in enumerate(n['args']):
                nxt = []
                for s1, vs in cur:
                    if s1.out:
                        nxt.append((s1, vs))
                    elif name == 'find_events' and i == 4 or name == 'output_func' and i == 2 or name in ('external_event', 'confluent_event') and i == 2:
                        nxt += [(s2, vs + [l]) for s2, l in eng.lval(a, s1)]
                    else:
                        nxt += [(s2, vs + [v]) for s2, v in eng.ev(a, s1)]
                cur = nxt
            for s1, vs in cur:
                if s1.out:
                    out.append((s1, UNDEF))
                    continue
                s1.n += 1
                r = ('ret', name, s1.n)
                x = {'ret': r, 'obj': o}
                effect(eng, s1, vs, x)
                s1.ev(Ev('call', name=name, cls='', obj=o, args=(), ret=r, line=n.get('l'), fn=s1.fr.fn, x=x))
                out.append((s1, r))
        return out
    return h


def take(eng, s, v, x, k):
    loc, A = arrarg(eng, s, v)
    if eng.arrloc(v)[1] != num(0):
        A = ('shift', A)
    x[k] = A
    x[k + '#'] = loc
    return loc, A


def e_tev(eng, s, vs, x):
    take(eng, s, vs[0], x, 'q')


def e_int(eng, s, vs, x):
    loc, A = take(eng, s, vs[0], x, 'q')
    x['lim'] = vs[1]
    s.mem[loc] = ap('adv', A, x['ret'])


def e_adv(eng, s, vs, x):
    loc, A = take(eng, s, vs[0], x, 'q')
    x['h'] = vs[1]
    s.mem[loc] = ap('adv', A, vs[1])


def e_find(eng, s, vs, x):
    el, E0 = take(eng, s, vs[0], x, 'flags')
    _, A0 = take(eng, s, vs[1], x, 'q0')
    l1, A1 = take(eng, s, vs[2], x, 'q1')
    x['h'] = eng.read(s, vs[4])
    x['hloc'] = vs[4]
    k = num(x['ret'][2])
    s.mem[el] = ap('fl', k)
    s.mem[l1] = ap('loc', k)
    x['hnew'] = ap('lh', k)
    eng.write(s, vs[4], x['hnew'], None, ev=False)


def e_hand(kind):
    def f(eng, s, vs, x):
        loc, A = take(eng, s, vs[0], x, 'q')
        if kind == 'external':
            x['e'] = vs[1]
        else:
            take(eng, s, vs[1], x, 'flags')
        if kind != 'internal':
            x['xb'] = vs[2]
        s.mem[loc] = ap('hd', num(x['ret'][2]))
    return f


def e_post(eng, s, vs, x):
    loc, A = take(eng, s, vs[0], x, 'q')
    s.mem[loc] = ap('post', A)


def e_init(eng, s, vs, x):
    loc, A = take(eng, s, vs[0], x, 'q')
    s.mem[loc] = ap('initial', num(x['ret'][2]))


def e_out(eng, s, vs, x):
    take(eng, s, vs[0], x, 'q')
    take(eng, s, vs[1], x, 'flags')
    C = eng.read(s, vs[2])
    x['list'] = vs[2]
    x['before'] = C
    R = ('filled', ap('out', num(x['ret'][2])))
    eng.write(s, vs[2], R if C == EMPTY or C[0] in ('undef', 'dflt') else ('app', R, C), None, ev=False)


SYS = {'time_event_func': e_tev, 'internal_event': e_hand('internal'), 'external_event': e_hand('external'), 'confluent_event': e_hand('confluent'),
       'postStep': e_post, 'postTrialStep': e_post, 'init': e_init, 'output_func': e_out}


def hybcfg():
    c = M.solver()
    for k, e in SYS.items():
        c.models[('adevs::ode_system', k)] = hcall(k, e)
    c.models[('adevs::ode_solver', 'integrate')] = hcall('integrate', e_int)
    c.models[('adevs::ode_solver', 'advance')] = hcall('advance', e_adv)
    c.models[('adevs::event_locator', 'find_events')] = hcall('find_events', e_find)
    c.inline_virtual |= {(HY, x) for x in ('ta', 'output_func', 'delta_int', 'delta_ext', 'delta_conf')}
    return c


# ------------------------------------------------------------------ roles
class Hyb:
    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep
        self.p = p = cx.prog('solvers')
        self.isN = dims(cx)
        self.isM = self.dim('numEvents')
        self.sm = {}
        for n in ('delta_int', 'delta_ext', 'delta_conf', 'output_func', 'ta', 'eventHappened', 'Hybrid'):
            fs = [f for f in need(p, HY, n) if f.get('body') is not None and not f.get('del') and not (n == 'Hybrid' and len(f['params']) < 3)]
            if not fs:
                raise Undecided('%s has no body' % n)
            self.sm[n] = [cx.summary('solvers', f, 'solver:hyb', cfg=hybcfg()).use(rep) for f in fs]
        ts = {f['n']: p.t(f['t']) for f in rec(p, HY)['f']}
        lists = [n for n, t in ts.items() if 'list<' in t or 'vector<' in t or 'deque<' in t]
        if len(lists) != 1:
            raise Undecided('the output held back is kept in another form')
        self.MO = ('f', TH, lists[0])
        self.S = self.ret_field('ta', lambda st: True)
        self.EH = self.ret_field('eventHappened', lambda st: True)
        bl = [n for n, t in ts.items() if t == 'bool']
        db = [n for n, t in ts.items() if t in ('double',) and n != self.S[2]]
        ee = [n for n in bl if n != self.EH[2]]
        if len(ee) != 1:
            ee = [n for n in ee if any(contains(a, lambda y: y == ('ld', ('f', TH, n))) for sm in self.sm['output_func'] for st in sm.states for a in map(norm, st.facts))]
        if len(ee) != 1 or len(db) != 1:
            raise Undecided('the fields of the hybrid model are not recognised')
        self.EE, self.EA = ('f', TH, ee[0]), ('f', TH, db[0])
        # the arrays: the trial state is the one that is integrated
        qt, q, ev = set(), set(), set()
        for sm in self.sm['delta_int'] + self.sm['delta_ext'] + self.sm['delta_conf']:
            for st in sm.states:
                for e in events(st.trace, 'call', 'time_event_func'):
                    q.add(norm(e.x['q#']))
                for e in events(st.trace, 'call', 'integrate'):
                    qt.add(norm(e.x['q#']))
                for e in events(st.trace, 'call', 'find_events'):
                    ev.add(norm(e.x['flags#']))
        ptr = [n for n, t in ts.items() if t.replace(' ', '') == 'double*']
        arr = lambda n: ('arr', ('ld', ('f', TH, n)))
        self.arrs = [arr(n) for n in ptr]
        if len(qt) == 1 and len(ptr) == 2 and qt <= set(self.arrs):
            self.QT = qt.pop()
            self.Q = [a for a in self.arrs if a != self.QT][0]
        else:
            raise Undecided('the state arrays are not recognised')
        fl = [n for n, t in ts.items() if t.replace(' ', '') == 'bool*']
        if len(fl) != 1:
            raise Undecided('the event flags are kept in another form')
        self.EV = arr(fl[0])

    def dim(self, fn):
        names = set()
        for f in self.p.find('adevs::ode_system', fn):
            for s in self.cx.summary('solvers', f, 'solver').normal():
                o = s.out[1] if s.out else None
                if o is not None and o[0] == 'ld' and o[1][0] == 'f':
                    names.add(o[1][2])
        return lambda t: t is not None and t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in names

    def ret_field(self, fn, ok):
        c = set()
        for sm in self.sm[fn]:
            for st in sm.normal():
                v = norm(st.out[1]) if st.out else None
                if v is not None and v[0] == 'ld' and v[1][0] == 'f':
                    c.add(v[1])
        if len(c) != 1:
            raise Undecided('%s is computed in another way' % fn)
        return c.pop()

    # ---- contents
    def canon(self, A):
        """what state an array holds: copies and notifications do not matter"""
        A = norm(A)
        if A[0] == 'ap' and A[1] == 'post':
            return self.canon(ap_payload(A)[0])
        if islam(A):
            r = full(A, self.isN)
            if r == 'part':
                return ('part',)
            if r is not None and r[0][0] == 'elt' and r[0][2] == T.BIND:
                return self.canon(r[0][1])
            return A
        if A[0] == 'ap' and A[1] == 'adv':
            B, h = ap_payload(A)
            return ap('adv', self.canon(B), norm(h))
        return A

    def at(self, st, loc):
        ptr = st.mem.get(loc[1][1])
        if ptr is not None and norm(ptr) != loc[1]:
            loc = ('arr', norm(ptr))
        for k, v in st.mem.items():
            if k[0] == 'arr' and norm(k) == loc:
                return v
        return ('a0', loc[1])

    def fld(self, st, loc):
        for k, v in st.mem.items():
            if k[0] == 'f' and norm(k) == loc:
                return norm(v)
        return ('ld', loc)

    def flag(self, E):
        """(base, value of the time event entry or None)"""
        E = norm(E)
        while E[0] == 'st':
            if self.isM(E[2]):
                b = E[1]
                while b[0] == 'st' and self.isM(b[2]):
                    b = b[1]
                return b, E[3]
            E = E[1]
        return E, None

    def timeflag(self, E, P):
        """the value of the time event entry; a search leaves it as it was (N05)"""
        for _ in range(8):
            b, v = self.flag(E)
            if v is not None:
                return v
            if not (b[0] == 'ap' and b[1] == 'fl'):
                return None
            k = ap_payload(b)[0]
            f = [e for e in P.only('find_events') if num(e.x['ret'][2]) == k]
            if not f:
                return None
            E = f[0].x['flags']
        return None


# ------------------------------------------------------------------ evaluation in a case
def value(t, env):
    """number or truth of a term in a case, or None"""
    if t in env:
        return env[t]
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t[0] == 'num':
        return t[1]
    if t[0] == 'c' and 'lim:' in str(t[1]):
        return F(10 ** 9) if 'max' in t[1] or 'inf' in t[1] else None
    if t[0] == 'ld' and len(t) == 2 and t[1][0] == 'obj' and t[1][1][0] == 'ap':
        return value(t[1][1], env)
    if t[0] == 'ap' and t[1] in ('min', 'max'):
        xs = [value(x, env) for x in ap_payload(t)]
        if any(x is None for x in xs):
            return None
        return (min if t[1] == 'min' else max)(xs)
    if t[0] in ('pos', 'ipos', 'zero', 't', 'eq', 'lt', 'emptyc', 'some', 'isnan'):
        return truth(t, env)
    if t[0] == 'not':
        v = value(t[1], env)
        return None if v is None else not v
    if t[0] == 'lit':
        v = truth(t[1], env)
        return None if v is None else v == t[2]
    p = to_poly(t)
    if list(p) == [((t, 1),)]:
        return None
    tot = F(0)
    for m, c in p.items():
        x = F(c)
        for a, k in m:
            v = value(a, env)
            if v is None or isinstance(v, bool):
                return None
            if k < 0 and v == 0:
                return None
            x *= F(v) ** k
        tot += x
    return tot


def truth(a, env):
    if a in env:
        return env[a]
    if a[0] in ('pos', 'ipos'):
        v = value(a[1], env)
        return None if v is None else v > 0
    if a[0] == 'zero':
        v = value(a[1], env)
        return None if v is None else v == 0
    if a[0] == 't':
        v = value(a[1], env)
        return None if v is None else bool(v)
    if a[0] in ('eq', 'lt'):
        x, y = value(a[1], env), value(a[2], env)
        if x is None or y is None:
            return None
        return x == y if a[0] == 'eq' else x < y
    return None


IRREL = ('complete', 'done', 'more', 'nn')


def admits(facts, env, isdim):
    """(possible, certain): whether the case satisfies the conditions of a path"""
    sure = True
    for a, s in facts.items():
        if a[0] in IRREL:
            continue
        v = truth(a, env)
        if v is None:
            if a[0] in ('pos', 'ipos', 'zero') and all(isdim(x) or x[0] in ('ix', 'num') for m in to_poly(a[1]) for x, _ in m):
                continue        # sizes of the system
            if a[0] == 't' and single_flag(a[1], s, facts, env, isdim):
                continue
            sure = False
        elif v != s:
            return False, True
    return True, sure


def single_flag(t, s, facts, env, isdim):
    """one flag of the event at hand: it may be set or not as long as an event is at hand, because another flag may be the one that is set"""
    ev, ee = env.get('events', (None, None))
    if ev is None or not ee or t[0] != 'elt' or t[1] != ('a0', ev) or t[2][0] != 'num':
        return False
    for a, v in facts.items():
        if a[0] in ('zero', 'eq', 'lt', 'pos', 'ipos') and subterms((a,), isdim):
            if not (a[0] == 'zero' and isdim(a[1]) and not v):
                return False
        if a[0] == 't' and a[1][0] == 'elt' and a[1] != t and not a[1][2][0] == 'num':
            return False
    return True


def flat(trace):
    """the calls of a path in order; None when one happens in a loop"""
    out = []
    for e in trace:
        if e.k == 'loop':
            for x in events((e,)):
                if x.k == 'call' and isinstance(x.x, dict):
                    return None
            continue
        if e.k == 'call' and isinstance(e.x, dict):
            out.append(e)
    return out


HAND = ('internal_event', 'external_event', 'confluent_event')


class Path:
    def __init__(self, hy, sm, st, name):
        self.hy, self.sm, self.st, self.name = hy, sm, st, name
        self.calls = flat(st.trace)
        self.facts = {norm(a): s for a, s in st.facts.items()}

    def only(self, n):
        return [e for e in self.calls if e.name == n]

    def hands(self):
        return [e for e in self.calls if e.name in HAND]

    def plan(self):
        """the calls that take the next step: time event, integration, search; the last of each"""
        i = max([k for k, e in enumerate(self.calls) if e.name == 'integrate'], default=None)
        return i

    def terms(self):
        """the quantities of the next step that conditions may mention"""
        h = self.hy
        r = {}
        for e in self.calls:
            if e.name == 'time_event_func':
                r['tev'] = e.x['ret']
            elif e.name == 'integrate':
                r['h'] = e.x['ret']
            elif e.name == 'find_events':
                fe = r.setdefault('find', [])
                fe.append(e)
        return r


def cases(P, op):
    """the cases to tell apart, as valuations of the terms of the path"""
    hy = P.hy
    tm = P.terms()
    finds = tm.get('find', [])
    plan = [e for e in finds if P.calls.index(e) > (P.plan() if P.plan() is not None else 10 ** 6)]
    early = [e for e in finds if e not in plan]
    ep = ('p', 'e', 0)
    dim = []

    def opt(*alts):
        dim.append(alts)
    opt(('EE', True), ('EE', False))
    opt(('MO', True), ('MO', False))
    opt(('S', F(0)), ('S', F(7)))
    opt(('EA', F(0)), ('EA', F(3)))
    opt(('EH', True), ('EH', False))
    opt(('e', F(0)), ('e', F(5))) if op == 'delta_ext' else opt(('e', F(5)))
    opt(('found', True), ('found', False)) if plan else opt(('found', None))
    opt(('found0', True), ('found0', False)) if early else opt(('found0', None))
    opt(('step', (F(11), F(11), F(11))), ('step', (F(11), F(11), F(6))), ('step', (F(20), F(11), F(11))), ('step', (F(20), F(11), F(6))),
        ('step', (F(0), F(0), F(0)))) if plan or tm.get('h') else opt(('step', None))
    opt(('short', F(1)), ('short', F(1, 2))) if early else opt(('short', F(1)))
    # conditions that compare with constants are looked at in small scale, too
    consts = any(a[0] in ('lt', 'eq', 'pos', 'ipos', 'zero') and any(m == () and k != 0 for x in a[1:] if isinstance(x, tuple) for m, k in to_poly(x).items()) for a in P.facts)
    if consts:
        opt(('scale', F(1)), ('scale', F(1, 1000)))
    for c in product(*dim):
        c = dict(c)
        sc = c.get('scale', 1)
        if sc != 1:
            for k in ('S', 'EA', 'e'):
                c[k] *= sc
            if c['step'] is not None:
                c['step'] = tuple(x * sc for x in c['step'])
        if c['EE'] is False and c['S'] == 0 and not c['MO']:
            continue        # no step of length zero without an event
        env = {('ld', hy.EE): c['EE'], ('ld', hy.S): c['S'], ('ld', hy.EA): c['EA'], ('ld', hy.EH): c['EH']}
        env['events'] = (hy.EV[1], c['EE'])
        env[('emptyc', hy.MO)] = not c['MO']
        env[('emptyc', ('ld', hy.MO))] = not c['MO']
        for x in P.sm.fn['params']:
            if op == 'delta_ext' and x is P.sm.fn['params'][0]:
                env[('ld', ('obj', ('p', x['n'], 0)))] = c['e']
                env[('p', x['n'], 0)] = c['e']
        if c['step'] is not None:
            tev, h, hn = c['step']
            if tm.get('tev'):
                env[tm['tev']] = tev
            if tm.get('h'):
                env[tm['h']] = h
            for e in plan:
                env[norm(e.x['hnew'])] = hn
                env[e.x['ret']] = c['found']
        for e in finds:
            v = hy.timeflag(ap('fl', num(e.x['ret'][2])), P)
            v = value(norm(v), env) if v is not None else None
            if v is not None:
                for a in P.facts:
                    for y in subterms(a, lambda y: y[0] == 'elt' and y[1] == ap('fl', num(e.x['ret'][2])) and hy.isM(y[2])):
                        env[y] = v
                for y in subterms((hy.fld(P.st, hy.EE),), lambda y: y[0] == 'elt' and y[1] == ap('fl', num(e.x['ret'][2])) and hy.isM(y[2])):
                    env[y] = v
        for e in early:
            env[e.x['ret']] = c['found0']
            env[norm(e.x['hnew'])] = c['e'] * c['short']
        yield c, env


# ------------------------------------------------------------------ obligations
class Check:
    """collects outcomes so that each obligation is reported once per path"""
    def __init__(self, rep, sm, name):
        self.rep, self.sm, self.name = rep, sm, name
        self.seen = {}

    def say(self, key, text, ok, sure, where=None, why=''):
        """ok: True, False or None"""
        k = '%s:%s' % (self.name, key)
        s = self.seen.get(k)
        r = 'ok' if ok else ('bad' if ok is False and sure else 'und')
        rank = {'ok': 0, 'und': 1, 'bad': 2}
        if s is None or rank[r] > rank[s[0]]:
            self.seen[k] = (r, text, where or self.sm.where, why)

    def flush(self):
        for k, (r, text, where, why) in self.seen.items():
            if r == 'ok':
                self.rep.ok('%s: %s' % (k, text))
            elif r == 'und':
                self.rep.und(k, 'not understood: %s%s' % (text, ' (%s)' % why if why else ''))
            else:
                self.rep.bad(k, 'fails: %s%s' % (text, ' (%s)' % why if why else ''), where)


def same(a, b):
    """equal, provably different, or unknown"""
    if a == b:
        return True
    if known(a) and known(b):
        return False
    return None


def sames(a, b, env):
    """the values of two terms in a case"""
    if a == b:
        return True
    x, y = value(a, env), value(b, env)
    if x is not None and y is not None:
        return x == y
    return same(a, b) and None


def desc(hy, A):
    A = hy.canon(A)
    if A == ('a0', hy.Q[1]):
        return 'the committed state'
    if A == ('a0', hy.QT[1]):
        return 'the trial state'
    if A == ('part',):
        return 'a state of which only part was copied'
    if A[0] == 'ap' and A[1] == 'adv':
        B, h = ap_payload(A)
        return '%s advanced by %s' % (desc(hy, B), fmt(h)[:40])
    if A[0] == 'ap' and A[1] == 'loc':
        return 'the state found by the locator'
    if A[0] == 'ap' and A[1] == 'hd':
        return 'the state after the event'
    return fmt(A)[:60]


def transition(hy, ck, P, op, e1, e2, c, env, sure):
    """obligations of a transition in one case; e1, e2 say which property they belong to"""
    st = P.st
    Q0, QT0, EV0 = ('a0', hy.Q[1]), ('a0', hy.QT[1]), ('a0', hy.EV[1])
    S, EA = ('ld', hy.S), ('ld', hy.EA)
    hands = P.hands()
    early = op == 'delta_int' and c['MO'] and c['S'] > 0
    # what has to happen
    kind, state, elapsed, flags = None, QT0, None, EV0
    if op == 'delta_int':
        if early:
            kind, state = None, Q0
        elif c['EE']:
            kind = 'internal_event'
    elif op == 'delta_conf':
        if c['MO'] and c['S'] > 0:
            kind, state, elapsed = 'external_event', Q0, EA
        elif c['EE']:
            kind = 'confluent_event'
        else:
            kind, elapsed = 'external_event', add(EA, S)
    elif op == 'delta_ext':
        ep = P.param
        if c['EE'] and c['found0']:
            kind, state, flags = 'confluent_event', None, None
        elif c['EE'] and c['found0'] is None:
            # the search for a missed event is itself an obligation (below)
            kind = 'external_event'
            state, elapsed = ap('adv', Q0, ep), add(ep, EA)
        else:
            kind = 'external_event'
            state, elapsed = ap('adv', Q0, ep), add(ep, EA)
    case = '%s%s' % ('an event is due' if c['EE'] else 'no event is due', ', output was held back' if c['MO'] else '')
    finds = P.only('find_events')
    i = P.plan()
    searched = [e for e in finds if i is None or P.calls.index(e) < i]
    if op == 'delta_ext':
        if c['EE']:
            if not searched:
                ck.say('search', 'an input that arrives before an event looks for an event missed in the time that has passed', False, sure, None, 'none is looked for')
            else:
                e = searched[0]
                ok = hy.canon(e.x['q0']) == Q0 and hy.canon(e.x['q1']) == ap('adv', Q0, P.param) and sames(norm(e.x['h']), P.param, env) is True
                ck.say('search', 'an input that arrives before an event looks for an event missed in the time that has passed', True if ok else
                       (False if known(hy.canon(e.x['q1'])) and known(hy.canon(e.x['q0'])) and known(norm(e.x['h'])) else None), sure, P.sm.at(e), 'from %s to %s over %s' % (desc(hy, e.x['q0']), desc(hy, e.x['q1']), fmt(norm(e.x['h']))[:40]))
                if c['found0']:
                    state = ap('loc', num(e.x['ret'][2]))
                    flags = (ap('fl', num(e.x['ret'][2])), FALSE)
    ck.say('handler', 'the right handler is called exactly once', [e.name for e in hands] == ([kind] if kind else []), sure, P.sm.at(hands[0]) if hands else None,
           '%s: %s instead of %s' % (case, ' and '.join(e.name for e in hands) or 'none', kind or 'none'))
    if [e.name for e in hands] != ([kind] if kind else []):
        return
    after = None
    if hands:
        e = hands[0]
        got = hy.canon(e.x['q'])
        if state is not None:
            ck.say('state', 'the handler is given the state of that instant', True if got == state else (False if known(got) else None), sure, P.sm.at(e), '%s: it is given %s' % (case, desc(hy, e.x['q'])))
        if elapsed is not None:
            x = norm(e.x['e'])
            r = True if x == elapsed else sames(x, elapsed, env)
            ck.say('elapsed', 'the handler is told the whole time since the last event', r, sure, P.sm.at(e), '%s: %s instead of %s' % (case, fmt(x)[:60], fmt(elapsed)[:60]))
        if kind != 'external_event' and flags is not None:
            b, tv = hy.flag(e.x['flags'])
            if isinstance(flags[1], tuple) and flags[1] in (TRUE, FALSE):
                ck.say('flags', 'the handler is told which events occurred', True if b == flags[0] and tv == FALSE else (False if known(b) else None), sure, P.sm.at(e),
                       'the time event is flagged as it was for the whole step' if b == flags[0] else 'they are %s' % fmt(b)[:60])
            else:
                ok = norm(e.x['flags']) == flags
                ck.say('flags', 'the handler is told which events occurred', True if ok else (False if known(b) else None), sure, P.sm.at(e), case)
        if kind != 'internal_event':
            xl = norm(e.x['xb'])
            ck.say('input', 'the handler is given the input', True if xl == P.xb else (False if known(xl) else None), sure, P.sm.at(e))
        after = ap('hd', num(e.x['ret'][2]))
        if op == 'delta_ext' and kind == 'external_event':
            k = P.calls.index(e)
            posts = [x for x in P.calls[:k] if x.name == 'postStep' and hy.canon(x.x['q']) == got]
            ck.say('notify', 'the system is told of the state before it handles the input', bool(posts), sure, P.sm.at(e))
        if op == 'delta_ext' and kind == 'confluent_event':
            k = P.calls.index(e)
            outs = [x for x in P.calls[:k] if x.name == 'output_func']
            good = len(outs) == 1 and hy.canon(outs[0].x['q']) == state and norm(outs[0].x['list']) in (hy.MO,)
            ck.say('output', 'output of a missed event is computed before it is handled, and kept', True if good else (False if not outs or known(hy.canon(outs[0].x['q'])) else None), sure, P.sm.at(e),
                   'it is not computed' if not outs else ('it is computed %d times' % len(outs) if len(outs) > 1 else 'from %s' % desc(hy, outs[0].x['q'])))
            if len(outs) == 1:
                b, tv = hy.flag(outs[0].x['flags'])
                ck.say('output:flags', 'output of a missed event is told the events found', True if b == ap('fl', num(searched[0].x['ret'][2])) and tv == FALSE else (False if known(b) else None), sure, P.sm.at(outs[0]))
    elif not early:
        after = QT0
    # output held back: delivered and gone
    mo = hy.fld(st, hy.MO)
    if op in ('delta_int', 'delta_conf'):
        cleared = mo == EMPTY
        untouched = mo == ('ld', hy.MO)
        ck.say('held', 'output held back is delivered once', True if cleared or untouched and not c['MO'] else (False if untouched or mo[0] in ('app', 'filled') else None), sure, None, 'it stays')
    # elapsed time
    ea = hy.fld(st, hy.EA)
    want = EA if early else (num(0) if hands else add(EA, S if not c['MO'] or c['S'] == 0 else num(0)))
    ck.say('since', 'the time since the last event is kept', True if ea == want else sames(ea, want, env), sure, None, '%s: it becomes %s' % (case, fmt(ea)[:60]))
    eh = hy.fld(st, hy.EH)
    v = value(eh, env)
    wanth = c['EH'] if early else (c['EE'] if op == 'delta_int' else True)
    ck.say('happened', 'eventHappened tells whether the last transition was an event of the system', None if v is None else v == wanth, sure, None, case)
    if early:
        same_ = hy.canon(hy.at(st, hy.Q)) == Q0 and hy.canon(hy.at(st, hy.QT)) == QT0 and hy.fld(st, hy.S) == S and hy.fld(st, hy.EE) == ('ld', hy.EE) and norm(hy.at(st, hy.EV)) == EV0
        ck.say('kept', 'delivering output held back changes nothing else', True if same_ else (False if all(known(x) for x in (hy.canon(hy.at(st, hy.Q)), hy.canon(hy.at(st, hy.QT)), hy.fld(st, hy.S))) else None), sure)
        if P.plan() is not None:
            ck.say('kept', 'delivering output held back changes nothing else', False, sure, None, 'another step is taken')
        return
    step(hy, ck, P, after, c, env, sure, case)


def step(hy, ck, P, X, c, env, sure, case):
    """the next step is planned from state X"""
    st = P.st
    i = P.plan()
    ints = P.only('integrate')
    if i is None or len(ints) != 1:
        ck.say('plan', 'the next step is taken after every transition', False if not ints else None, sure, None, 'none is taken')
        return
    I = ints[0]
    got = hy.canon(I.x['q'])
    ck.say('commit:trial', 'the next step starts from the new state', True if got == X else (False if known(got) else None), sure, P.sm.at(I), '%s: it starts from %s' % (case, desc(hy, I.x['q'])))
    tv = [e for e in P.calls[:i] if e.name == 'time_event_func']
    tvall = P.only('time_event_func')
    if not tvall:
        ck.say('time-event', 'the time event is looked up for every step', False, sure, P.sm.at(I), 'it is not')
        return
    if len(tvall) > 1:
        ck.say('time-event', 'the time event is looked up for every step', None, sure)
        return
    tq = hy.canon(tvall[0].x['q'])
    tev = tvall[0].x['ret']
    ck.say('time-event', 'the time event is that of the new state', True if tq == X else (False if known(tq) else None), sure, P.sm.at(tvall[0]), '%s: it is that of %s' % (case, desc(hy, tvall[0].x['q'])))
    lim = value(norm(I.x['lim']), env)
    ck.say('limit', 'integration goes no further than the time event', None if lim is None else lim <= env[tev] if env.get(tev) is not None else None, sure, P.sm.at(I), 'up to %s' % fmt(norm(I.x['lim']))[:60])
    qend = hy.canon(hy.at(st, hy.Q))
    ck.say('commit', 'the new state is committed', True if qend == X else (False if known(qend) else None), sure, None, '%s: %s is' % (case, desc(hy, hy.at(st, hy.Q))))
    finds = [e for e in P.only('find_events') if P.calls.index(e) > i]
    if len(finds) != 1:
        ck.say('events', 'every step is searched for state events', False if not finds else None, sure, P.sm.at(I), 'it is not')
        return
    E = finds[0]
    hI = I.x['ret']
    g0, g1, gh = hy.canon(E.x['q0']), hy.canon(E.x['q1']), norm(E.x['h'])
    ok = g0 == X and g1 == ap('adv', X, hI) and (gh == hI or sames(gh, hI, env) is True)
    ck.say('events', 'every step is searched for state events', True if ok else (False if known(g0) and known(g1) and known(gh) else None), sure, P.sm.at(E),
           'from %s to %s over %s' % (desc(hy, E.x['q0']), desc(hy, E.x['q1']), fmt(gh)[:40]))
    k = num(E.x['ret'][2])
    # the trial state is that of the located event
    t = hy.canon(hy.at(st, hy.QT))
    ck.say('trial', 'the trial state is that at the end of the step announced', True if t == ap('loc', k) else (False if known(t) else None), sure, None, 'it is %s' % desc(hy, hy.at(st, hy.QT)))
    hn = norm(E.x['hnew'])
    sg = hy.fld(st, hy.S)
    v = value(sg, env)
    want = min(env[hn], env[tev])
    ck.say('advance', 'the time advance is the step reached, at most the time event', None if v is None else v == want, sure, P.sm.at(E), 'it is %s' % fmt(sg)[:80])
    reached = env[tev] <= env[hn]
    b, _ = hy.flag(hy.at(st, hy.EV))
    flag = hy.timeflag(hy.at(st, hy.EV), P)
    fv = value(flag, env) if flag is not None else None
    if flag is None:
        ck.say('time-flag', 'the time event is flagged exactly when it is reached', False if b == ap('fl', k) or b[0] == 'a0' else None, sure, None, 'the flag is not set')
    else:
        ck.say('time-flag', 'the time event is flagged exactly when it is reached', None if fv is None else bool(fv) == reached, sure, P.sm.at(E), 'flagged %s with the time event at %s and the step at %s' % (fv, env[tev], env[hn]))
        ck.say('flags:kept', 'the flags are those the locator set for this step', True if b == ap('fl', k) else (False if known(b) else None), sure, P.sm.at(E))
    ee = hy.fld(st, hy.EE)
    ev = value(ee, env)
    ck.say('event', 'an event is due exactly when a time or state event was found', None if ev is None else bool(ev) == (reached or c['found']), sure, P.sm.at(E),
           'due %s with %s time event and %s state event' % (ev, 'a' if reached else 'no', 'a' if c['found'] else 'no'))
    pts = [e for e in P.calls if e.name == 'postTrialStep' and P.calls.index(e) > P.calls.index(E)]
    good = pts and hy.canon(pts[-1].x['q']) == X
    ck.say('notify:trial', 'after the trial the system is told to return to the new state', True if good else (False if not pts or known(hy.canon(pts[-1].x['q'])) else None), sure, P.sm.at(E))


H1 = {'search', 'handler', 'state', 'elapsed', 'flags', 'input', 'notify', 'since', 'kept', 'commit', 'commit:trial', 'trial', 'plan', 'ctor', 'init'}


class Split:
    """passes on the obligations of one property"""
    def __init__(self, rep, first):
        self.rep, self.first = rep, first

    def mine(self, k):
        return (k.split(':', 1)[1] in H1) == self.first

    def ok(self, k):
        if self.mine(k.split(': ')[0]):
            self.rep.ok(k)

    def und(self, k, w):
        if self.mine(k):
            self.rep.und(k, w)

    def bad(self, k, w, at):
        if self.mine(k):
            self.rep.bad(k, w, at)


def hybrid(cx, rep, first):
    hy = Hyb(cx, rep)
    sp = Split(rep, first)
    isdim = lambda t: hy.isN(t) or hy.isM(t)
    for op in ('delta_int', 'delta_ext', 'delta_conf'):
        for sm in hy.sm[op]:
            for st in sm.normal():
                P = Path(hy, sm, st, op)
                ck = Check(sp, sm, op)
                if P.calls is None:
                    rep.und(op, 'the system is called in a loop')
                    continue
                ps = sm.fn['params']
                P.param = ('ld', ('obj', ('p', ps[0]['n'], 0))) if op == 'delta_ext' else None
                if op == 'delta_ext':
                    P.param = ('p', ps[0]['n'], 0)
                P.xb = ('obj', ('p', ps[-1]['n'], len(ps) - 1)) if op != 'delta_int' else None
                seen = False
                for c, env in cases(P, op):
                    if op == 'delta_ext' and (c['MO'] or c['S'] < c['e']):
                        continue        # then the transition is confluent
                    ok, sure = admits(P.facts, env, isdim)
                    if not ok:
                        continue
                    seen = True
                    transition(hy, ck, P, op, None, None, c, env, sure)
                ck.flush()
    for sm in hy.sm['Hybrid']:
        ctor(hy, sp, rep, sm, isdim)
    if not first:
        output(hy, rep, isdim)
        advance(hy, rep, isdim)


def ctor(hy, sp, rep, sm, isdim):
    for st in sm.normal():
        P = Path(hy, sm, st, 'Hybrid')
        P.param = P.xb = None
        if P.calls is None:
            rep.und('Hybrid', 'the system is called in a loop')
            continue
        ck = Check(sp, sm, 'Hybrid')
        ini = P.only('init')
        if len(ini) != 1:
            ck.say('init', 'the system sets the initial state', False if not ini else None, True, None, 'it is not asked')
            ck.flush()
            continue
        X = ap('initial', num(ini[0].x['ret'][2]))
        for c, env in cases(P, 'Hybrid'):
            if not c['EE'] or c['MO'] or c['EA'] or not c['EH'] or c['S']:
                continue
            ok, sure = admits(P.facts, env, isdim)
            if not ok:
                continue
            step2(hy, ck, P, X, c, env, sure)
            ea = hy.fld(st, hy.EA)
            ck.say('since', 'no time has passed at the start', True if ea == num(0) else (False if known(ea) else None), sure)
            fe = P.only('find_events')
            if fe:
                A = norm(fe[0].x['flags'])
                good = None
                if islam(A):
                    s, e, body, base = ap_payload(A)
                    e2 = norm(sub(e, num(1)))
                    good = True if norm(s) == num(0) and hy.isM(e2) and body in (FALSE, num(0)) else None
                    if norm(s) == num(0) and hy.isM(norm(e)) or body == TRUE:
                        b2, tvv = hy.flag(fe[0].x['flags'])
                        good = body != TRUE
                elif A[0] == 'a0' or A[0] in ('undef',):
                    good = False
                elif A[0] == 'fillall' and A[1] in (num(0), FALSE):
                    good = True
                ck.say('init:flags', 'no event is flagged at the start', good, sure, None, 'the flags are not set')
        ck.flush()


def step2(hy, ck, P, X, c, env, sure):
    step(hy, ck, P, X, c, env, sure, 'at the start')


def output(hy, rep, isdim):
    """output of the system is produced only at its events"""
    for sm in hy.sm['output_func']:
        for st in sm.normal():
            P = Path(hy, sm, st, 'output_func')
            if P.calls is None:
                rep.und('output_func', 'the system is called in a loop')
                continue
            ck = Check(rep, sm, 'output_func')
            yb = ('obj', ('p', sm.fn['params'][-1]['n'], len(sm.fn['params']) - 1))
            for c, env in cases(P, 'output_func'):
                if c['EH'] is False or c['EA']:
                    continue
                if c['MO'] and c['S'] == 0 and not c['EE']:
                    continue
                ok, sure = admits(P.facts, env, isdim)
                if not ok:
                    continue
                outs = P.only('output_func')
                due = (c['S'] == 0 if c['MO'] else c['EE'])
                case = '%s%s' % ('an event is due now' if due else 'no event is due now', ', output was held back' if c['MO'] else '')
                ck.say('when', 'output of the system is produced exactly at its events', (len(outs) == 1) == due and len(outs) <= 1, sure, None, '%s: produced %d times' % (case, len(outs)))
                for e in outs:
                    g = hy.canon(e.x['q'])
                    ck.say('state', 'output is produced from the state of the event', True if g == ('a0', hy.QT[1]) else (False if known(g) else None), sure, P.sm.at(e), 'from %s' % desc(hy, e.x['q']))
                    ck.say('flags', 'output is told which events occurred', True if norm(e.x['flags']) == ('a0', hy.EV[1]) else (False if known(norm(e.x['flags'])) else None), sure, P.sm.at(e))
                    ck.say('to', 'output goes to the list given', True if norm(e.x['list']) == yb else (False if known(norm(e.x['list'])) else None), sure, P.sm.at(e))
                    if not c['MO']:
                        k = P.calls.index(e)
                        posts = [x for x in P.calls[:k] if x.name == 'postStep' and hy.canon(x.x['q']) == g]
                        ck.say('notify', 'the system is told of the state before it produces output', bool(posts), sure, P.sm.at(e))
                if c['MO']:
                    held(hy, ck, P, yb, sure)
                mo = hy.fld(st, hy.MO)
                ck.say('held:kept', 'output held back is delivered once', True if mo == ('ld', hy.MO) else None, sure)
            ck.flush()


def held(hy, ck, P, yb, sure):
    """all of the output held back is delivered"""
    got = None
    for e in P.st.trace:
        if e.k == 'loop' and e.x.kind == 'each' and e.x.cloc is not None and norm(e.x.cloc) == hy.MO:
            L = e.x
            if L.exits or not L.regular:
                got = None
                break
            res = True
            for p in L.paths:
                n = 0
                for x in p.trace:
                    if x.k == 'mut' and x.obj is not None and norm(x.obj) == yb and x.name == 'push':
                        v = norm(val(x.args[0])) if x.args else None
                        n += 1
                        if v is None or v[0] != 'elem':
                            res = None if res else res
                if n != 1:
                    res = False
            got = res
        elif e.k == 'mut' and e.obj is not None and norm(e.obj) == yb and e.name in ('splice', 'insrange', 'insert', 'assign', 'append') and contains(tuple(norm(val(a)) for a in e.args if val(a) is not None), lambda y: y == hy.MO or y == ('ld', hy.MO)):
            got = True
    pushes = [e for e in P.st.trace if e.k == 'mut' and e.obj is not None and norm(e.obj) == yb and e.name == 'push']
    if got is None and pushes and not any(e.k == 'loop' for e in P.st.trace):
        got = False
    if got is None:
        muts = [e for e in P.st.trace if e.k in ('mut', 'loop')]
        got = False if not muts else None
    ck.say('held', 'all output held back is delivered', got, sure)


def advance(hy, rep, isdim):
    for sm in hy.sm['ta']:
        for st in sm.normal():
            P = Path(hy, sm, st, 'ta')
            ck = Check(rep, sm, 'ta')
            for c, env in cases(P, 'ta'):
                ok, sure = admits(P.facts, env, isdim)
                if not ok:
                    continue
                v = value(norm(st.out[1]), env) if st.out else None
                want = F(0) if c['MO'] else c['S']
                ck.say('ta', 'the time advance is what was planned, or zero while output is held back', None if v is None else v == want, sure)
            ck.flush()


def H01(cx, rep):
    """contents of the state and flag arrays on every path of the transition functions, compared case by case with the handler, state and elapsed time the property demands"""
    hybrid(cx, rep, True)


def H02(cx, rep):
    """operands of time event, integration, search and output calls on every path; outcome of each path compared with every order of time event, step and event found"""
    hybrid(cx, rep, False)
