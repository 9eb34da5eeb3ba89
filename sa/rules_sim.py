"""S01-S07: the simulation algorithm."""
from rulelib import *

DELTA = ('delta_int', 'delta_ext', 'delta_conf')
LIST_PV = r'list<adevs::PinValue<'


PUSHES = ('push', 'push_back', 'push_front', 'pushf')


class Sim:
    """roles of the private members the rules speak about"""
    def __init__(self, cx):
        p = cx.prog('core')
        self.p = p
        r = lambda n, pat: role(p, 'adevs::Simulator', n, pat)
        self.this = ('this',)
        self.graph_f = r('graph', r'^std::shared_ptr<adevs::Graph')
        self.listeners = r('listeners', r'EventListener')
        self.extin = r('external_input', LIST_PV)
        self.active = r('active', r'std::set<adevs::Atomic<.*\*>$')
        self.orph = r('orphaned', r'std::set<adevs::MealyAtomic<.*\*>$')
        self.sched = r('sched', r'^adevs::Schedule<')
        self.tnext = r('tNext', r'^adevs::sd_time')
        for n in ('tL', 'tN', 'inputs', 'outputs', 'revisable_inputs'):
            role(p, 'adevs::Atomic', n, r'^$')
        role(p, 'adevs::MealyAtomic', 'receivers', r'std::set')
        self.TNEXT = ld(fld(self.this, self.tnext))
        self.SCHED = ('addr', fld(self.this, self.sched))
        self.NOW = ('tadd', self.TNEXT, ('c', 'eps'))
        self.ACTIVE = fld(self.this, self.active)
        self.ORPH = fld(self.this, self.orph)
        self.LISTEN = fld(self.this, self.listeners)
        self.EXTIN = fld(self.this, self.extin)
        self.graph = None

    @property
    def once_only(self):
        """the collection of active models holds each of them once whatever is inserted"""
        for r in self.p.recb.get('adevs::Simulator', []):
            for f in r['f']:
                if f['n'] == self.active:
                    t = self.p.t(f['t'])
                    return re.match(r'^(const )?std::(__cxx11::)?(set|unordered_set|map|unordered_map)<', t) is not None
        return None

    def joins(self, trace, X, deep=True, f=None):
        """model X becomes active in this trace, or is active already: True, False or None"""
        if holds(f, trace, self.ACTIVE, X, deep):
            return True
        return False if self.once_only else None

    def is_graph(self, o):
        o = deld(o)
        return o == ld(fld(self.this, self.graph_f)) or (o[0] == 'get' and False)


def sim_fn(cx, rep, name, cfg='sim'):
    fns = need(cx.prog('core'), 'adevs::Simulator', name)
    if len(fns) != 1:
        raise Undecided('several functions named %s' % name)
    return cx.summary('core', fns[0], cfg).use(rep)


def holds(f, trace, loc, X, deep=True):
    """X is put into the collection at loc in this trace, or the facts say that it is there already (and it is not taken out)"""
    evs = [e for e in (events(trace, 'mut') if deep else trace) if e.k == 'mut' and e.obj == loc]
    for e in evs:
        if (e.name == 'ins' or e.name in PUSHES) and e.args and val(e.args[0]) == X:
            return True
    if any(e.name == 'clear' or e.name == 'erase' and e.args and val(e.args[0]) == X for e in evs):
        return False
    return known(f, loc, X)


def known(f, loc, X, there=True):
    """the facts say that X is (not) in the collection at loc"""
    return any(a[0] == 'has' and s is there and (a[2] == X or deld(a[2]) == X) and about(a[1], loc) for a, s in (f or {}).items())


def about(C, loc):
    """C is a value of the collection at loc"""
    while C[0] in ('ins', 'push', 'erase', 'touch', 'rm', 'pop', 'popb', 'app') and len(C) > 1:
        C = C[1]
    return C[0] in ('ld',) and C[1] == loc or C[0] in ('cphi', 'cfin') and C[-1] == loc


# ---------------------------------------------------------------- per element
class Comp:
    """what one traversal (or several over the same container) does to one element"""
    def __init__(self, facts, trace, loops, exc=None, choice=()):
        self.facts, self.trace, self.loops, self.exc = facts, trace, loops, exc
        self.choice = choice      # ((loop id, path facts), ...)


E = ('E',)


def gen_elem(L):
    """renames the element of a loop to the symbol E and forgets epochs"""
    def f(x):
        if x == ('elem', L.id):
            return E
        return None

    def g(t):
        return deld(subst(t, f))
    return g


def map_trace(tr, g):
    out = []
    for e in tr:
        n = Ev(e.k, e.name, e.cls, g(e.obj) if e.obj is not None else None,
               tuple(Arg((g(a.val) if isinstance(a.val, tuple) else a.val, g(a.loc) if a.loc else None, g(a.cont) if a.cont else None)) if isinstance(a, Arg) else (g(a) if isinstance(a, tuple) else a) for a in e.args),
               g(e.ret) if isinstance(e.ret, tuple) else e.ret, e.line, e.x, e.fn)
        if e.k == 'loop':
            L = e.x.copy(e.x.partial)
            L.over = g(L.over) if L.over else None
            L.cloc = g(L.cloc) if L.cloc else None
            L.paths = [Path({}, map_trace(p.trace, g), p.out, p.st) for p in L.paths]
            for q, p in zip(L.paths, e.x.paths):
                q.facts = facts_map(p.facts, lambda x: None)
                q.facts = {g(a): s for a, s in q.facts.items()}
            n.x = L
        out.append(n)
    return tuple(out)


def touches(trace, sym, names):
    """events of the given names on sym anywhere below"""
    return [e for e in events(trace) if (e.k == 'call' and e.name in names) and
            (e.obj == sym or any(val(a) == sym or val(a) == ('obj', sym) for a in e.args))]


RELEV = DELTA + ('stateChange', 'inputEvent', 'schedule', 'ta')


def composites(st, rep, where):
    """[(container value, [Comp])] for the top-level traversals whose elements get transitions"""
    tops = [e.x for e in st.trace if e.k == 'loop']
    feeds = set(L.over[1] for L in tops if L.over is not None and L.over[0] == 'coll' and any(touches(p.trace, ('elem', L.id), RELEV) for p in L.paths))
    groups = {}
    order = []
    for L in tops:
        if L.id in feeds or any(touches(p.trace, ('elem', L.id), RELEV) for p in L.paths):
            k = deld(L.over) if L.over is not None else None
            if L.over is not None and L.over[0] == 'coll' and L.over[2] == EMPTY:
                # elements an earlier traversal set aside
                src = [k2 for k2 in order if any(M_.id == L.over[1] for M_ in groups[k2])]
                if src:
                    k = src[0]
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(L)
    out = []
    for k in order:
        comps = [Comp({}, (), ())]
        for L in groups[k]:
            if L.kind not in ('each', 'fifo', 'lifo', 'drain'):
                raise Undecided('traversal at line %s has no recognised form (%s)' % (L.line[1] if L.line else '?', L.kind))
            if not L.regular:
                if L.why in ('skips an element', 'may stop before the end', 'does not start at the beginning'):
                    rep.bad('traversal@%s' % (L.cloc and fmt(L.cloc)), 'the traversal of the active models %s' % L.why, where(L.line))
                raise Undecided('irregular traversal (%s)' % L.why)
            if L.partial and (st.out is None or st.out[0] == 'ret'):
                if vague_path(st.facts) or st.imp:
                    raise Undecided('the traversal may stop before the end')
                rep.bad('traversal@%s' % (L.cloc and fmt(L.cloc)), 'the traversal of the active models may stop before the end', where(L.line))
            g = gen_elem(L)
            nxt = []
            sub = L.over is not None and L.over[0] == 'coll' and deld(L.over) != k
            for c in comps:
                if sub:
                    ch = dict(c.choice).get(L.over[1])
                    adds = [xs for fs, xs in L.over[3] if fs == ch]
                    if len(adds) != 1 or any(x != ('elem', L.over[1]) for x in adds[0]) or len(adds[0]) > 1:
                        raise Undecided('elements set aside in a form not recognised')
                    if not adds[0]:
                        nxt.append(c)
                        continue
                for p in L.paths:
                    pf = {}
                    bad = False
                    for a, s in p.facts.items():
                        if a[0] in ('more', 'complete', 'done'):
                            continue
                        a2 = g(a)
                        if a2[0] == 'eq':
                            l = lit_eq(a2[1], a2[2])
                            if isinstance(l, bool):
                                bad = bad or (l != s)
                                continue
                            pf[l[0]] = s if l[1] else not s
                        else:
                            pf[a2] = s
                    if bad:
                        continue
                    f = consistent(c.facts, list(pf.items()))
                    if f is None:
                        continue
                    nxt.append(Comp(f, c.trace + map_trace(p.trace, g), c.loops + (L,), choice=c.choice + ((L.id, tuple(sorted(p.facts.items(), key=repr))),)))
            comps = nxt
            if len(comps) > 4000:
                raise Undecided('too many combinations of paths')
        out.append((k, groups[k], comps))
    return out


def writes_before(trace, i, locs):
    return any(e.k in ('wr', 'mut') and e.obj in locs for e in trace[:i])


# ---------------------------------------------------------------- S01
def distinct(cx, S, rep):
    """where the active models are kept in a collection that admits repetitions, a model is looked for before it is put there"""
    if S.once_only:
        rep.ok('active:distinct: a model is in the set of active models once')
        return
    if S.once_only is None:
        return
    from rules_out import out_summaries
    cno, hs = out_summaries(cx, S, rep)
    for sm in [cno] + list(hs.values()):
        for st in sm.normal():
            tidy = any(e.k == 'call' and e.name in ('sort', 'unique') or e.k == 'mut' and e.obj == S.ACTIVE and e.name not in PUSHES + ('ins', 'clear') for e in events(st.trace))
            for e, f, ch, i, tr in walk(st.trace):
                if e.k == 'mut' and e.obj == S.ACTIVE and (e.name == 'ins' or e.name in PUSHES):
                    seen = any(contains(a, lambda t: t == S.ACTIVE) for a in f) or any(x.k == 'loop' and (x.x.cloc == S.ACTIVE or x.x.over is not None and contains(x.x.over, lambda t: t == S.ACTIVE)) for x in tr[:i])
                    rep.check(True if known(f, S.ACTIVE, val(e.args[0]), False) or known(st.facts, S.ACTIVE, val(e.args[0]), False) else None if seen or tidy else False, 'active:distinct', 'a model is looked for among the active models before it joins them, so that it makes one transition', sm.at(e))


def S01(cx, rep):
    S = Sim(cx)
    sm = sim_fn(cx, rep, 'computeNextState')
    W = sm.prog.where
    Emp = ('emptyc', ld(fld(E, 'inputs')))
    Imm = lit_eq(ld(fld(E, 'tN')), S.TNEXT)
    inv = (('lt', ld(fld(E, 'tN')), S.TNEXT), False)
    nstates = 0
    distinct(cx, S, rep)
    for st in sm.normal():
        groups = composites(st, rep, W)
        if not groups:
            rep.bad('no-transitions', 'computeNextState makes no transitions', sm.where)
            continue
        own = [g for g in groups if any(touches(c.trace, E, DELTA) for c in g[2])]
        if len(own) != 1:
            raise Undecided('transitions are spread over %d different collections' % len(own))
        k, loops, comps = own[0]
        nstates += 1
        # no transition outside those traversals
        ids = set(L.id for L in loops)
        for e, f, chain, i, tr in walk(st.trace):
            if e.k == 'call' and e.name in DELTA:
                if not chain or not any(L.id in ids and e.obj == ('elem', L.id) for L, _ in chain):
                    rep.bad('stray-transition', '%s is invoked on %s outside the traversal of the active models' % (e.name, fmt(e.obj)), sm.at(e))
        for c in comps:
            f0 = consistent(c.facts, [inv])
            if f0 is None:
                continue
            for emp in (True, False):
                for imm in (True, False):
                    f = consistent(f0, [(Emp, emp), (Imm[0], imm == Imm[1])])
                    if f is None:
                        continue
                    S01_case(S, sm, rep, c, f0, emp, imm)
    others(cx, rep, S)
    from rules_out import participants
    participants(cx, S, rep)
    rep.ok('every path of %d returning summaries matched the transition table' % nstates)


def S01_case(S, sm, rep, c, f, emp, imm):
    name = 'with%s input, %sdue' % ('out' if emp else '', '' if imm else 'not ')
    want = {(False, True): 'delta_conf', (False, False): 'delta_ext', (True, True): 'delta_int', (True, False): None}[(emp, imm)]
    calls = []
    for e, ff, chain, i, tr in walk(c.trace):
        if e.k == 'call' and e.name in DELTA and e.obj == E:
            if chain:
                raise Undecided('a transition inside a nested loop')
            calls.append((e, i))
    got = [e.name for e, _ in calls]
    vg = vague_path(f)
    w = sm.at(calls[0][0]) if calls else sm.where
    if got != ([want] if want else []):
        if vg:
            rep.und('transition of a model %s' % name, 'the path depends on something the analysis does not track')
        else:
            rep.bad('transition:%s' % name, 'a model %s makes %s instead of %s' % (name, ' and '.join(got) or 'no transition', want or 'no transition'), w)
        return
    if not want:
        for n in ('stateChange', 'schedule'):
            t = touches(c.trace, E, (n,))
            rep.check(not t, 'idle:%s' % n, 'a model that makes no transition is not passed to %s' % n, sm.at(t[0]) if t else sm.where)
        for e in events(c.trace, 'wr'):
            if e.obj in (fld(E, 'tL'), fld(E, 'tN')):
                rep.bad('idle:time', 'a model that makes no transition keeps its place in time', sm.at(e))
        return
    e, i = calls[0]
    inp = ld(fld(E, 'inputs'))
    if want in ('delta_conf', 'delta_ext'):
        a = e.args[-1]
        touched = any(x.k == 'mut' and x.obj == fld(E, 'inputs') for x in events(c.trace[:i]))
        good = a.val == inp and not touched
        rep.check(good if good or not vague(a.val) else None, '%s:bag' % want, 'the whole input bag is passed to %s' % want, sm.at(e))
    if want == 'delta_ext':
        a = e.args[0].val
        good = a == ('tsub', S.TNEXT, ld(fld(E, 'tL')))
        if any(x.k == 'wr' and x.obj == fld(E, 'tL') for x in events(c.trace[:i])):
            good = False
        rep.check(good if good or not vague(a) else None, 'delta_ext:elapsed', 'the elapsed time is the event time minus the last event time (it is %s)' % fmt(a), sm.at(e))
    # the elapsed time of a later input counts from this transition
    wr = [x for x in c.trace[i:] if x.k == 'wr' and x.obj == fld(E, 'tL')]
    deep = [x for x, ff, ch, j, tr in walk(c.trace[i:]) if ch and x.k == 'wr' and x.obj == fld(E, 'tL')]
    last = val(wr[-1].args[0]) if wr else None
    good = None if vg or deep or (last is not None and vague(last)) else last == S.NOW
    rep.check(good, 'last:%s' % want, 'the time of the transition is remembered as the time of the last event (%s is)' % (fmt(last) if last else 'nothing'),
              sm.at(wr[-1]) if wr else w)
    # nobody else's state changes
    rep.ok('%s -> %s' % (name, want))


def others(cx, rep, S):
    """no transition anywhere else in the simulator"""
    p = cx.prog('core')
    for f in list(p.fn.values()):
        if f.get('clsb') != 'adevs::Simulator' or f.get('body') is None or f['n'] in ('computeNextState', 'execNextEvent'):
            continue
        if f.get('acc') == 2:
            continue
        try:
            s = cx.summary('core', f, 'sim').use(rep)
        except Undecided as e:
            rep.und('no transitions in ' + f['n'], str(e))
            continue
        for st in s.states:
            for e in events(st.trace, 'call', DELTA):
                rep.bad('stray:%s' % f['n'], '%s invokes %s' % (f['n'], e.name), s.at(e))
        rep.ok('no transition functions are invoked in ' + f['n'])


# ---------------------------------------------------------------- S02
def sched_rule(S, sm, rep, key, sym, trace, facts, now, after, where, thrown=None, gone=False):
    """after position `after` of trace, model sym is scheduled from its time advance at `now`"""
    tas = [(e, i) for i, e in enumerate(trace) if e.k == 'call' and e.name == 'ta' and e.obj == sym]
    nested = [e for e, f, ch, i, tr in walk(trace) if ch and e.k == 'call' and (e.name == 'ta' and e.obj == sym or e.name == 'schedule' and val(e.args[0]) == sym)]
    if nested:
        rep.und(key, 'scheduling inside a nested loop')
        return
    sch = [(e, i) for i, e in enumerate(trace) if e.k == 'call' and e.name == 'schedule' and e.args and val(e.args[0]) == sym]
    vg = vague_path(facts)

    def bad(k, what, ev=None):
        if vg:
            rep.und(key + ':' + k, what)
        else:
            rep.bad(key + ':' + k, what, where(ev))
    if not tas:
        bad('ta', 'the time advance of the model is not consulted')
        return
    if tas[-1][1] < after:
        bad('ta-early', 'the time advance is taken before the transition', tas[-1][0])
        return
    if len(tas) > 1:
        bad('ta-twice', 'the time advance is taken %d times' % len(tas), tas[-1][0])
        return
    r = tas[0][0].ret
    ll = lit_lt(r, ('c', 'zero'))
    neg = decide(facts, ll)
    if thrown is not None:
        if neg is not True:
            bad('throw', 'an exception is thrown although the time advance is not known to be negative')
        m = exc_model(thrown)
        if m is None:
            rep.und(key + ':throw-model', 'the exception value is not understood')
        else:
            rep.check(m == sym, key + ':throw-model', 'the exception for a negative time advance identifies the model', where(None))
        if sch:
            bad('throw-schedule', 'a model with a negative time advance is scheduled', sch[0][0])
        return
    if neg is True:
        bad('negative', 'a negative time advance is not reported by an exception', tas[0][0])
        return
    wr = {}
    for e in trace:
        if e.k == 'wr' and e.obj is not None and e.obj[0] == 'f' and e.obj[1] == sym:
            wr[e.obj[2]] = e
    if 'tL' not in wr:
        bad('tL', 'the time of the last event is not set')
    else:
        v = val(wr['tL'].args[0])
        rep.check(True if v == now else (None if vg or vague(v) else False), key + ':tL',
                  'the last event time becomes the current time (it becomes %s)' % fmt(v), where(wr['tL']))
    isinf = decide(facts, lit_eq(r, ('c', 'inf')))
    want = ('c', 'inf') if isinf is True else r if now == ('c', 'zero') else ('tadd', now, r)
    if len(sch) != 1:
        bad('schedule', 'the model is scheduled %d times' % len(sch), sch[0][0] if sch else None)
        return
    if neg is None and isinf is not True:
        bad('negative', 'a negative time advance is not reported by an exception', sch[0][0])
        return
    okv = (want, r) if isinf is True or now == ('c', 'zero') else (want,)
    if isinf is None and not (now == ('c', 'zero') and val(sch[0][0].args[1]) == r):
        bad('infinite', 'an infinite time advance is not told from a finite one', sch[0][0])
        return
    v = val(sch[0][0].args[1])
    rep.check(True if v in okv else (None if vg or vague(v) else False), key + ':when:%s' % ('inf' if isinf else 'finite'),
              'the model is scheduled at %s (it is scheduled at %s)' % (fmt(want), fmt(v)), where(sch[0][0]))
    if sch[0][1] < tas[0][1]:
        bad('order', 'the model is scheduled before its time advance is known', sch[0][0])
    if 'tN' not in wr:
        bad('tN', 'the time of the next event is not recorded')
    else:
        v = val(wr['tN'].args[0])
        rep.check(True if v in okv else (None if vg or vague(v) else False), key + ':tN:%s' % ('inf' if isinf else 'finite'),
                  'the recorded next event time is %s (it is %s)' % (fmt(want), fmt(v)), where(wr['tN']))


def exc_model(out):
    v = out[1] if len(out) > 1 else None
    if v is None:
        return None
    if v[0] == 'ap' and str(v[1]).startswith('ctor:std::') or v[0] in ('c', 'str'):
        return ('c', 'an exception without a model')
    if v[0] == 'struct':
        for n, x in v[1]:
            if n in ('model', 'who', 'm_model'):
                return deld(x)
        c = [x for n, x in v[1] if x[0] != 'str']
        if len(c) == 1:
            return deld(c[0])
    return None


def S02(cx, rep):
    S = Sim(cx)
    sm = sim_fn(cx, rep, 'computeNextState')
    W = lambda e: sm.at(e)
    for st in sm.normal():
        groups = composites(st, rep, sm.prog.where)
        own = [g for g in groups if any(touches(c.trace, E, DELTA) for c in g[2])]
        if len(own) != 1:
            raise Undecided('transitions are spread over several collections')
        for c in own[0][2]:
            i = [j for j, e in enumerate(c.trace) if e.k == 'call' and e.name in DELTA and e.obj == E]
            if not i:
                continue
            sched_rule(S, sm, rep, 'advance', E, c.trace, c.facts, S.NOW, i[-1], W)
        # next event time and result
        v = st.mem.get(fld(S.this, S.tnext))
        ep = repr(st.ep.get('#sched', 0))
        if v is None:
            rep.bad('tNext', 'the time of the next event is not updated by the advance', sm.where)
        else:
            good = v[0] == 'ap' and v[1] == 'minPriority'
            if good:
                o, es = ap_payload(v)
                rep.check(deld(o) == S.SCHED and es == ('str', ep), 'tNext',
                          'the next event time is the minimum of the schedule after its last change', sm.where)
            else:
                rep.check(None if vague(v) else False, 'tNext', 'the next event time is the minimum of the schedule (it is %s)' % fmt(v), sm.where)
        r = deld(st.out[1]) if st.out and len(st.out) > 1 else None
        rep.check(r == S.NOW if r is not None and not vague(r) else (None if r is not None else False), 'result',
                  'the advance returns the event time plus the smallest increment (it returns %s)' % (fmt(r) if r else None), sm.where)
    for st in sm.thrown():
        S02_throw(S, sm, rep, st)
    S02_ctors(cx, rep, S)
    # execNextEvent and nextEventTime
    p = cx.prog('core')
    ne = need(p, 'adevs::Simulator', 'nextEventTime')[0]
    s = cx.summary('core', ne, 'sim').use(rep)
    for st in s.states:
        rep.check(st.out is not None and st.out[0] == 'ret' and deld(st.out[1]) == S.TNEXT, 'nextEventTime', 'nextEventTime reports the next event time', s.where)
    exec_rule(cx, rep, S)


def exec_rule(cx, rep, S):
    p = cx.prog('core')
    fn = need(p, 'adevs::Simulator', 'execNextEvent')[0]
    c = M.CONFIGS['sim']()
    c.opaque = set(c.opaque) | {('adevs::Simulator', 'computeNextOutput'), ('adevs::Simulator', 'computeNextState')}
    s = cx.summary('core', fn, 'exec', cfg=c).use(rep)
    for st in s.states:
        seq = [e for e in st.trace if e.k == 'call' and e.name in ('computeNextOutput', 'computeNextState') and e.obj == S.this]
        names = [e.name for e in seq]
        rep.check(names == ['computeNextOutput', 'computeNextState'], 'execNextEvent:order',
                  'executing an event computes the output and then the next state, once each (it does %s)' % names, s.where)
        if names and names[-1] == 'computeNextState':
            rep.check(st.out is not None and st.out[0] == 'ret' and st.out[1] == seq[-1].ret, 'execNextEvent:result',
                      'executing an event returns the time of the advance', s.where)


def S02_throw(S, sm, rep, st):
    """the trace after a partial traversal is what happened to the offending element"""
    parts = [i for i, e in enumerate(st.trace) if e.k == 'loop' and e.x.partial]
    if not parts:
        rep.und('exception of computeNextState', 'thrown outside the traversals')
        return
    L = st.trace[parts[-1]].x
    tail = st.trace[parts[-1] + 1:]
    # which model?  the one whose time advance was found negative
    tas = [e for e in events(tail, 'call', ('ta',))]
    if not tas:
        rep.und('exception of computeNextState', 'thrown before a time advance is known')
        return
    sym = tas[-1].obj
    sched_rule(S, sm, rep, 'negative', deld(sym), map_trace(tail, deld), {deld(a): s for a, s in st.facts.items()}, None, -1, sm.at, thrown=st.out)


def S02_ctors(cx, rep, S):
    p = cx.prog('core')
    fns = [f for f in need(p, 'adevs::Simulator', 'Simulator') if f.get('body') is not None and len(f.get('params', [])) == 1
           and re.search(r'shared_ptr<adevs::(Graph|Atomic|Coupled)<', p.t(f['params'][0]['t']))]
    if len(fns) != 3:
        raise Broken('a constructor of the simulator is gone')
    for f in fns:
        kind = re.search(r'shared_ptr<adevs::(Graph|Atomic|Coupled)<', p.t(f['params'][0]['t'])).group(1)
        s = cx.summary('core', f, 'sim').use(rep)
        for st in s.normal():
            ctor_state(S, s, rep, kind, st, f)
        for st in s.thrown():
            tas = list(events(st.trace, 'call', ('ta',)))
            parts = [i for i, e in enumerate(st.trace) if e.k == 'loop' and e.x.partial]
            tail = st.trace[parts[-1] + 1:] if parts else st.trace
            tas = list(events(tail, 'call', ('ta',)))
            if not tas:
                rep.und('exception of the %s constructor' % kind, '')
                continue
            sym = deld(tas[-1].obj)
            sched_rule(S, s, rep, 'ctor-%s-negative' % kind, sym, map_trace(tail, deld), {deld(a): x for a, x in st.facts.items()}, None, -1, s.at, thrown=st.out)


def graph_term(S, st, s):
    v = st.mem.get(fld(S.this, S.graph_f))
    return v


def ctor_state(S, s, rep, kind, st, f):
    key = 'ctor-%s' % kind
    zero = ('c', 'zero')
    v = st.mem.get(fld(S.this, S.tnext))
    ep = repr(st.ep.get('#sched', 0))
    if v is None:
        rep.bad(key + ':tNext', 'the constructor does not set the time of the next event', s.where)
    else:
        good = v[0] == 'ap' and v[1] == 'minPriority'
        if good:
            o, es = ap_payload(v)
            rep.check(deld(o) == S.SCHED and es == ('str', ep), key + ':tNext', 'the next event time is the minimum of the complete schedule', s.where)
        else:
            rep.check(None if vague(v) else False, key + ':tNext', 'the next event time is the minimum of the schedule', s.where)
    G = st.mem.get(fld(S.this, S.graph_f))
    p0 = ('p', f['params'][0]['n'], 0)
    if kind == 'Atomic':
        calls = [(i, e) for i, e in enumerate(st.trace) if e.k == 'call' and e.name == 'add_atomic']
        tas = [(i, e) for i, e in enumerate(st.trace) if e.k == 'call' and e.name == 'ta']
        if len(calls) != 1 or val(calls[0][1].args[0]) is None:
            rep.bad(key + ':add', 'the model is added to the graph %d times' % len(calls), s.where)
        else:
            rep.check(deld(calls[0][1].obj) == deld(G), key + ':add', 'the model is added to the simulated graph', s.at(calls[0][1]))
        m = deld(val(calls[0][1].args[0])) if calls else None
        tr = map_trace(st.trace, deld)
        if m is not None:
            sched_rule(S, s, rep, key, m, tr, {deld(a): x for a, x in st.facts.items()}, zero, -1, s.at)
        return
    # Graph / Coupled: a complete traversal of the models of the graph
    loops = [(i, e.x) for i, e in enumerate(st.trace) if e.k == 'loop' and e.x.cloc is not None and e.x.cloc[0] == 'f' and e.x.cloc[2] == '#atomics']
    done = False
    for i, L in loops:
        if deld(L.cloc[1]) not in (deld(G), p0, deld(ld(p0))) and deld(L.cloc[1]) != deld(G):
            rep.bad(key + ':which', 'the models of another graph are scheduled', s.prog.where(L.line))
            continue
        if not any(touches(p.trace, ('elem', L.id), ('ta', 'schedule')) for p in L.paths):
            continue
        if not L.regular or L.kind != 'each':
            raise Undecided('irregular traversal of the models of the graph (%s)' % L.why)
        done = True
        g = gen_elem(L)
        for p in L.paths:
            sched_rule(S, s, rep, key, E, map_trace(p.trace, g), {g(a): x for a, x in p.facts.items() if a[0] not in ('more', 'complete', 'done')}, zero, -1, s.at)
        if kind == 'Coupled':
            asg = [(j, e) for j, e in enumerate(st.trace) if e.k == 'call' and e.name == 'assign_to_graph']
            if len(asg) != 1:
                rep.bad(key + ':assign', 'the coupled model joins the graph %d times' % len(asg), s.where)
            else:
                e = asg[0][1]
                rep.check(asg[0][0] < i, key + ':assign-order', 'the coupled model joins the graph before its models are scheduled', s.at(e))
                rep.check(deld(val(e.args[0])) == deld(G), key + ':assign-graph', 'the coupled model joins the simulated graph', s.at(e))
    if not done:
        if any(True for _ in events(st.trace, 'call', ('ta',))):
            rep.und(key, 'models are scheduled in a way the analysis does not recognise')
        else:
            rep.bad(key + ':schedule', 'the models of the graph are not scheduled', s.where)
    if kind == 'Graph':
        rep.check(G is not None and deld(G) in (p0, ld(p0), deld(ld(p0))), key + ':graph', 'the given graph is the one simulated', s.where)
