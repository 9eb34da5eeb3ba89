"""S03-S05, S07: output calculation, delivery, listeners, Mealy models."""
from rulelib import *
from rules_sim import *
from terms import get

OUTF = ('output_func', 'confluent_output_func', 'external_output_func')
NODES = ('each', 'fifo', 'lifo', 'drain')
PUSH = ('push', 'pushf')


def out_summaries(cx, S, rep):
    """computeNextOutput and the recursive private helpers it reaches"""
    cno = sim_fn(cx, rep, 'computeNextOutput')
    hs = {}
    todo = [cno]
    p = cx.prog('core')
    while todo:
        s = todo.pop()
        for st in s.states:
            for e in events(st.trace, 'call'):
                if e.obj == S.this and e.cls.split('<')[0] == 'adevs::Simulator' and e.name not in hs and e.name != cno.fn['n']:
                    fs = p.find('adevs::Simulator', e.name)
                    if len(fs) != 1:
                        raise Undecided('overloaded helper ' + e.name)
                    hs[e.name] = cx.summary('core', fs[0], 'sim').use(rep)
                    todo.append(hs[e.name])
    return cno, hs


def is_mealy(sym):
    return ('isa', sym, 'adevs::MealyAtomic')


def mlit(facts, sym):
    v = facts.get(is_mealy(sym))
    if v is None:
        # null test of the downcast
        for a, s in facts.items():
            if a[0] == 'isa' and a[1] == sym:
                return s
    return v


def tops(tr):
    return [(i, e.x) for i, e in enumerate(tr) if e.k == 'loop']


def pfacts(facts):
    return {a: s for a, s in facts.items() if a[0] not in ('more', 'complete', 'done')}


def regular(L, kinds=NODES):
    return L.regular and L.kind in kinds


DEFECT = ('skips an element', 'may stop before the end', 'does not start at the beginning')


def reg_rule(rep, key, L, what, where):
    """True when the traversal is complete; reports it otherwise"""
    if L.partial:
        rep.bad(key, '%s: the traversal stops before the end' % what, where)
        return False
    if regular(L):
        return True
    if L.why in DEFECT:
        rep.bad(key, '%s: the traversal %s' % (what, L.why), where)
    else:
        rep.und('%s: %s' % (key, what), 'traversal not recognised (%s %s)' % (L.kind, L.why))
    return False


def memv(st, loc):
    return st.mem.get(loc)


def forbidden(S, rep, sm, name):
    n = 0
    for st in sm.states:
        for e in events(st.trace):
            n += 1
            if e.k == 'call' and (e.name in DELTA or e.name in ('ta', 'stateChange', 'inputEvent') or
                                  (e.cls.split('<')[0] == 'adevs::Schedule' and e.name == 'schedule') or
                                  (e.cls.split('<')[0] == 'adevs::Graph' and e.name in ('add_atomic', 'remove_atomic', 'connect', 'disconnect', 'remove_pin', 'set_provisional'))):
                rep.bad('effect:%s:%s' % (name, e.name), '%s is invoked while the output is computed' % e.name, sm.at(e))
            if e.k == 'wr' and e.obj[0] == 'f' and (e.obj[2] in ('tL', 'tN') or e.obj == fld(S.this, S.tnext)):
                rep.bad('effect:%s:%s' % (name, e.obj[2]), '%s is changed while the output is computed' % fmt(e.obj), sm.at(e))
    rep.ok('no state, clock or schedule change among %d events of %s' % (n, name))


def S03(cx, rep):
    """path-sensitive effect analysis of computeNextOutput, its helpers, computeNextState and the injection interface"""
    S = Sim(cx)
    cno, hs = out_summaries(cx, S, rep)
    forbidden(S, rep, cno, cno.fn['n'])
    for n, h in hs.items():
        forbidden(S, rep, h, n)
    for st in cno.normal():
        imminents(S, rep, cno, st)
        fresh(S, rep, cno, st)
        drained(S, rep, cno, st)
    leftovers(cx, S, rep)
    injection(cx, S, rep)


def imm_loops(S, st):
    """(i, loop) over the result of a call on the schedule"""
    rets = {}
    for e in events(st.trace, 'call'):
        if deld(e.obj) == S.SCHED and e.name not in ('minPriority', 'schedule') and e.ret is not None:
            rets[e.ret] = e
    out = []
    for e, f, ch, i, tr in walk(st.trace):
        if e.k == 'loop' and e.x.over in rets:
            out.append((i, e.x, rets[e.x.over], ch))
    return rets, out


def due(S, st):
    f = dict(st.facts)
    mp = [a for a in st.facts if a[0] in ('eq', 'lt') and contains(a, lambda x: len(x) > 1 and x[0] == 'ap' and x[1] == 'minPriority')]
    if not mp:
        return None, False
    m = subterms(mp[0], lambda x: len(x) > 1 and x[0] == 'ap' and x[1] == 'minPriority')[0]
    f = {deld(a): s for a, s in f.items()}
    m = deld(m)
    f[('lt', m, S.TNEXT)] = f.get(('lt', m, S.TNEXT), False)
    return decide(f, lit_eq(m, S.TNEXT)), True


def imminents(S, rep, sm, st):
    W = sm.prog.where
    d, tested = due(S, st)
    rets, loops = imm_loops(S, st)
    vg = vague_path(st.facts)
    if d is True:
        if not rets:
            rep.check(None if vg else False, 'imminent:asked', 'the due models are looked up when the next event of the schedule is due', sm.where)
            return
        if len(loops) != 1:
            cand = any(e.k == 'loop' and not regular(e.x, NODES + ('worklist',)) for e in st.trace)
            rep.und('imminent:loop', 'the due models are traversed %d times' % len(loops)) if loops or cand else \
                rep.bad('imminent:loop', 'the due models are not asked for output', sm.where)
            return
    elif rets and loops:
        if d is False:
            rep.check(None if vg else False, 'imminent:early', 'models are asked for output only when they are due', sm.at(list(rets.values())[0]))
            return
        if not tested:
            rep.check(None if vg else False, 'imminent:early', 'models are asked for output only when the next event of the schedule is at the time of the event', sm.at(list(rets.values())[0]))
            return
        rep.check(None if vg else False, 'imminent:early', 'models are asked for output only when they are due (the condition on the schedule does not imply it)', sm.at(list(rets.values())[0]))
        return
    else:
        if d is None and not rets:
            seen = any(contains(a, lambda x: len(x) > 1 and (deld(x) == S.SCHED or x[0] == 'ap' and x[1] == 'minPriority')) for a in st.facts)
            rep.check(None if vg or seen or st.imp else False, 'imminent:asked', 'the due models are looked up when the next event of the schedule is due', sm.where)
        else:
            rep.ok('no due model is asked when none is due')
        for e, f, ch, i, tr in walk(st.trace):
            if e.k == 'call' and e.name in OUTF:
                rep.und('output of ' + fmt(e.obj), 'outside the traversal of due models')
        return
    i, L, call, ch = loops[0]
    if not reg_rule(rep, 'imminent:traversal', L, 'every due model is asked for its output', W(L.line)):
        return
    el = ('elem', L.id)
    for p in L.paths:
        f = pfacts(p.facts)
        calls = [(e, c2) for e, f2, c2, j, tr in walk(p.trace) if e.k == 'call' and e.name in OUTF and e.obj == el]
        other = [e for e in events(p.trace, 'call') if e.name in OUTF and e.obj != el]
        m = mlit(f, el)
        if any(c2 for _, c2 in calls):
            rep.und('imminent:output', 'output function called in a nested loop')
            continue
        if other:
            rep.bad('imminent:other', 'another model is asked for output', sm.at(other[0]))
        if m is True:
            rep.check(not calls, 'imminent:mealy', 'a due Mealy model is not asked before the others are done', sm.at(calls[0][0]) if calls else sm.where)
            continue
        if m is None:
            if calls:
                rep.check(None if vague_path(f) else False, 'imminent:mealy', 'Mealy models are told from the others before output is asked for', sm.at(calls[0][0]))
            else:
                rep.und('imminent:output', 'path without a test for Mealy models')
            continue
        names = [e.name for e, _ in calls]
        if names != ['output_func']:
            rep.check(None if vague_path(f) else False, 'imminent:output', 'a due non-Mealy model is asked for output exactly once (here: %s)' % (names or 'not at all'),
                      sm.at(calls[0][0]) if calls else W(L.line))
            continue
        a = calls[0][0].args[0]
        rep.check(True if a.loc == fld(el, 'outputs') or a.cont is not None else None, 'imminent:list', 'a due model puts its output in its own list', sm.at(calls[0][0]))
    # nobody else
    for e, f, ch, j, tr in walk(st.trace):
        if e.k == 'call' and e.name in OUTF and not (ch and ch[0][0] is L):
            rep.bad('imminent:stray', '%s is asked for output outside the traversal of due models' % fmt(e.obj), sm.at(e))


def participants(cx, S, rep):
    """every due model ends up among the models that may change state"""
    sm = sim_fn(cx, rep, 'computeNextOutput')
    own = sim_fn(cx, rep, 'computeNextState')
    if any(deld(e.obj) == S.SCHED and e.name not in ('minPriority', 'schedule') for st in own.states for e in events(st.trace, 'call') if e.obj is not None):
        rep.und('due:active', 'the state change looks up the due models itself')
        return
    for st in sm.normal():
        d, tested = due(S, st)
        rets, loops = imm_loops(S, st)
        if d is False or not loops or vague_path(st.facts):
            continue
        # inserted as a whole
        if any(e.k == 'mut' and e.obj == S.ACTIVE and e.name != 'ins' and e.name not in PUSHES and e.name != 'clear' for e in events(st.trace)):
            rep.und('due:active', 'the active models are collected in another form')
            continue
        if any(not regular(L, NODES) or ch for _, L, _, ch in loops):
            continue            # S03 is about that
        bad = {}
        for i, L, call, ch in loops:
            el = ('elem', L.id)
            for p in L.paths:
                f = pfacts(p.facts)
                m = mlit(f, el)
                c = S.ACTIVE if m is False else S.ORPH if m is True else None
                ins = [e.obj for e in events(p.trace, 'mut') if e.args and (e.name == 'ins' or e.name in PUSHES) and val(e.args[0]) == el and e.obj in (S.ACTIVE, S.ORPH)]
                ins += [l for l in (S.ACTIVE, S.ORPH) if holds(f, p.trace, l, el)]
                good = c in ins or S.ACTIVE in ins
                if not good and (m is None and not ins and p.out is not None or m is not True and not S.once_only):
                    good = None
                bad.setdefault(i, []).append((good, vague_path(f), m, L))
        ok = any(all(g is True for g, *_ in v) for v in bad.values())
        if ok:
            rep.ok('due:active: every due model takes part in the state change')
        elif len(bad) > 1:
            rep.und('due:active', 'due models are traversed several times')
        else:
            for g, vg, m, L in list(bad.values())[0]:
                if g is True:
                    continue
                rep.check(None if vg or g is None or st.imp else False, 'due:active', 'a due %smodel takes part in the next state change' % ('' if m is None else 'Mealy ' if m else 'non-Mealy '), sm.prog.where(L.line))


def fresh(S, rep, sm, st):
    """inputs left by a superseded computation are cleared first"""
    W = sm.prog.where
    loops = [(i, L) for i, L in tops(st.trace) if L.over is not None and L.over == ('ld', S.ACTIVE, 0)]
    first = None
    for i, e in enumerate(st.trace):
        if e.k == 'loop' and any(x.k == 'mut' and x.name in PUSH and x.obj[0] == 'f' and x.obj[2] in ('inputs', 'revisable_inputs') or x.k == 'call' and x.name in OUTF
                                 for x in events((e,))):
            first = i
            break
    good = []
    for i, L in loops:
        if not L.paths:
            continue
        el = ('elem', L.id)
        res = [p.st.mem.get(fld(el, 'inputs')) if p.st is not None else None for p in L.paths]
        if any(r == EMPTY for r in res):
            good.append((i, L, res))
    if not good:
        vg = any(L.kind not in NODES for _, L in tops(st.trace) if L.kind != 'worklist') or any(vague(L.over) for _, L in tops(st.trace)[:1] if L.over)
        rep.check(None if vg else False, 'fresh:inputs', 'input lists left by a superseded computation are emptied first', sm.where)
        return
    i, L, res = good[0]
    if not reg_rule(rep, 'fresh:traversal', L, 'input lists left by a superseded computation are emptied', W(L.line)):
        return
    for p, r in zip(L.paths, res):
        rep.check(True if r == EMPTY else (None if vague_path(p.facts) else False), 'fresh:inputs', 'the input list of every model of a superseded computation is emptied', W(L.line))
    if first is not None:
        rep.check(i < first, 'fresh:order', 'input lists are emptied before anything is delivered', W(L.line))
    # injected inputs are used up
    v = st.mem.get(S.EXTIN)
    used = [(j, M_) for j, M_ in tops(st.trace) if M_.cloc == S.EXTIN or (M_.over is not None and deld(M_.over) == ld(S.EXTIN))]
    if v is None:
        rep.check(False if used else None, 'fresh:injected', 'injected inputs are used by one computation only', sm.where)
    else:
        rep.check(True if v == EMPTY else None if vague(v) else False, 'fresh:injected', 'injected inputs are used by one computation only', sm.where)
    if len(used) != 1:
        rep.check(False if not used and v is not None else None, 'fresh:injected-used', 'injected inputs are routed in one traversal', sm.where)


def gather_loops(S, st):
    out = []
    for i, L in tops(st.trace):
        el = ('elem', L.id)
        if L.cloc == S.ACTIVE and any(e.k == 'loop' and e.x.cloc == fld(el, 'revisable_inputs') or
                                      e.k == 'mut' and e.obj == fld(el, 'revisable_inputs') for p in L.paths for e in events(p.trace)):
            out.append((i, L))
    return out


def drained(S, rep, sm, st):
    W = sm.prog.where
    g = gather_loops(S, st)
    if len(g) != 1:
        rep.und('drained', '%d gathering traversals' % len(g))
        return
    i, L = g[0]
    if not reg_rule(rep, 'drained:traversal', L, 'every active model is cleaned up', W(L.line)):
        return
    el = ('elem', L.id)
    for p in L.paths:
        f = pfacts(p.facts)
        for n, must in (('outputs', True), ('revisable_inputs', True), ('receivers', mlit(f, el) is not False)):
            v = p.st.mem.get(fld(el, n))
            if not must:
                continue
            emp = v == EMPTY or (v is not None and decide(p.facts, ('emptyc', v) and (('emptyc', v), True)) is True)
            if v is None and n == 'receivers' and mlit(f, el) is None:
                rep.und('drained:receivers', 'path without a test for Mealy models')
                continue
            rep.check(True if emp else (None if (v is not None and vague(v)) or vague_path(f) else False), 'drained:%s' % n,
                      'nothing is left in %s of an active model after the output is computed' % n, W(L.line))


def leftovers(cx, S, rep):
    sm = sim_fn(cx, rep, 'computeNextState')
    for st in sm.normal():
        groups = composites(st, rep, sm.prog.where)
        own = [g for g in groups if any(touches(c.trace, E, DELTA) for c in g[2])]
        if len(own) != 1:
            raise Undecided('transitions are spread over several collections')
        Emp = ('emptyc', ld(fld(E, 'inputs')))
        for c in own[0][2]:
            if c.facts.get(Emp) is True:
                continue
            muts = [e for e in events(c.trace, 'mut') if e.obj == fld(E, 'inputs')]
            ok = muts and (muts[-1].name == 'clear' or (muts[-1].name == 'assign' and val(muts[-1].args[0]) == EMPTY))
            single = all(e.name in ('pop', 'popb') and any(e is x for x in c.trace) for e in muts)
            if not ok and muts and not any(e.name in PUSH for e in muts) and not single:
                rep.und('left:inputs', 'inputs are consumed in a form not recognised')
                continue
            rep.check(bool(ok) or (None if vague_path(c.facts) else False), 'left:inputs', 'no input is left behind by an advance', sm.where)
        v = st.mem.get(S.ACTIVE)
        rep.check(True if v == EMPTY else (None if v is not None and vague(v) else False), 'left:active', 'no model stays marked as active after an advance', sm.where)


def injection(cx, S, rep):
    p = cx.prog('core')
    s = cx.summary('core', need(p, 'adevs::Simulator', 'injectInput')[0], 'sim').use(rep)
    x = s.fn['params'][0]
    for st in s.normal():
        v = st.mem.get(S.EXTIN)
        good = None
        if v is not None and v[0] == 'push' and v[3] == 'b' and deld(v[1]) == ld(S.EXTIN):
            w = deld(v[2])
            want = ('ld', ('p', x['n'], 0))
            good = True if contains(w, lambda t: len(t) > 1 and t[0] == 'p' and t[1] == x['n']) and not vague(w) else None
        elif v is None or not vague(v):
            good = False
        rep.check(good, 'inject', 'an injected input is added to those already injected (result: %s)' % (fmt(v) if v else None), s.where)
        for e in events(st.trace):
            if e.k in ('wr',) and e.obj == fld(S.this, S.tnext) or e.k == 'call' and e.name in DELTA + ('schedule',):
                rep.bad('inject:effect', 'injecting input has another effect', s.at(e))
    s = cx.summary('core', need(p, 'adevs::Simulator', 'clearInjectedInput')[0], 'sim').use(rep)
    for st in s.normal():
        v = st.mem.get(S.EXTIN)
        rep.check(True if v == EMPTY else None if v is not None and vague(v) else False, 'clear', 'clearing injected input removes all of it', s.where)
    s = cx.summary('core', need(p, 'adevs::Simulator', 'setNextTime')[0], 'sim').use(rep)
    for st in s.normal():
        v = st.mem.get(fld(S.this, S.tnext))
        a = ('p', s.fn['params'][0]['n'], 0)
        rep.check(True if v is not None and deld(v) in (a, ld(a)) else None if v is not None and vague(v) else False, 'setNextTime', 'the announced event time becomes the one given', s.where)


# ---------------------------------------------------------------- S04
def S04(cx, rep):
    """path-sensitive dataflow from each produced or injected event through route to the input lists of its receivers"""
    S = Sim(cx)
    cno, hs = out_summaries(cx, S, rep)
    ev = evaluators(hs)
    for st in cno.normal():
        deliveries(S, rep, cno, st, None, hs, ev)
        sources(S, rep, cno, st)
        gather(S, rep, cno, st, ev)
    for n, h in hs.items():
        for st in h.normal():
            deliveries(S, rep, h, st, n, hs, ev)
            sources(S, rep, h, st)
    # injected events enter unchanged
    injection(cx, S, rep)


def evaluators(hs):
    return [n for n, h in hs.items() if any(e.name in OUTF for st in h.states for e in events(st.trace, 'call'))]


def root_param(sm):
    c = [i for i, x in enumerate(sm.fn['params']) if re.search(r'^adevs::(Mealy)?Atomic<.*\*( const)?$', sm.prog.t(x['t']))]
    if len(c) != 1:
        raise Undecided('%s has no single model parameter' % sm.fn['q'])
    return ('p', sm.fn['params'][c[0]]['n'], c[0])


def deliveries(S, rep, sm, st, helper, hs, ev):
    W = sm.prog.where
    kk = sm.fn['n']
    claimed = set()       # push events accounted for
    rootsym = root_param(sm) if helper else None
    for e, f, ch, i, tr in walk(st.trace):
        if not (e.k == 'call' and e.name == 'route' and e.cls.split('<')[0] == 'adevs::Graph'):
            continue
        w = sm.at(e)
        if not S.is_graph(e.obj):
            rep.check(None if vague(e.obj) else False, '%s:graph' % kk, 'events are routed through the simulated graph', w)
        lst = e.args[1]
        if lst.val != EMPTY:
            rep.check(None if vague(lst.val) else False, '%s:stale-route' % kk, 'the list of receivers is empty before each route (it holds %s)' % fmt(lst.val), w)
        if not ch:
            if any(x.k == 'loop' and x.x.partial for x in tr[:i]):
                continue
            rep.und('%s:source' % kk, 'routing outside a traversal')
            continue
        Ls, ps = ch[-1]
        x = ('elem', Ls.id)
        pin = deld(e.args[0].val)
        rep.check(True if pin == get(x, 'pin') else None if vague(pin) else False, '%s:route-pin' % kk, 'an event is routed from its own pin (here %s)' % fmt(pin), w)
        cons = [y.x for y in tr[i + 1:] if y.k == 'loop' and y.x.over == ('filled', ap('route', e.args[0].val)) and y.x.cloc == lst.loc]
        if len(cons) != 1:
            anywhere = [y for y in events(tr[i + 1:], 'loop')]
            rep.check(None if anywhere or vague_path(ps.facts) else False, '%s:consumed' % kk, 'the receivers found are traversed once (here %d times)' % len(cons), w)
            continue
        C = cons[0]
        if not reg_rule(rep, '%s:receivers' % kk, C, 'every receiver of an event gets it', W(C.line)):
            continue
        c = ('elem', C.id)
        X = get(c, 'second')
        src = rootsym if helper else None
        if not helper:
            if deld(Ls.over) == ld(S.EXTIN):
                src = NULL
            else:
                src = ('elem', ch[-2][0].id) if len(ch) > 1 else None
        for p in C.paths:
            deliver_path(S, rep, sm, kk, st, p, C, c, X, x, src, claimed, helper, hs, ev, tr, Ls)
    # no other deliveries
    for e, f, ch, i, tr in walk(st.trace):
        if e.k == 'mut' and e.obj[0] == 'f' and e.obj[2] in ('inputs', 'revisable_inputs') and id(e) not in claimed:
            if e.name in PUSH or e.name in ('insrange', 'ins'):
                # gathering: from revisable inputs of the same model
                m = e.obj[1]
                v = val(e.args[0]) if e.args else None
                if e.obj[2] == 'inputs' and ch and ch[-1][0].cloc == fld(m, 'revisable_inputs') and v == get(('elem', ch[-1][0].id), 'second'):
                    continue
                if any(L.partial for L, _ in ch) or any(x.k == 'loop' and x.x.partial for x in tr[:i]):
                    continue
                if e.name == 'insrange':
                    rep.und('%s:bulk' % kk, 'bulk insertion of input')
                    continue
                rep.check(None if v is None or vague(v) or vague(m) else False, '%s:unrouted' % kk, 'only routed events reach a model (here %s gets %s)' % (fmt(m), fmt(v) if v else '?'), sm.at(e))


def foreign(t, el, L):
    """the term cannot stem from this element: it was fixed before this iteration of L"""
    if contains(t, lambda x: x == el or len(x) > 0 and x[0] == 'unk'):
        return False
    inner = set()
    for p in L.paths:
        for e in events(p.trace, 'loop'):
            inner.add(e.x.id)
    return not contains(t, lambda x: len(x) > 1 and x[0] in ('phi', 'cphi', 'cfin', 'aphi', 'lphi') and x[1] in inner)


def deliver_path(S, rep, sm, kk, st, p, C, c, X, x, src, claimed, helper, hs, ev, tr, Ls):
    f = pfacts(p.facts)
    vg = vague_path(f)
    w = sm.prog.where(C.line)
    pushes = []
    for e, f2, ch2, i2, tr2 in walk(p.trace):
        if e.k == 'mut' and e.name in PUSH and e.obj[0] == 'f' and e.obj[2] in ('inputs', 'revisable_inputs'):
            claimed.add(id(e))
            if ch2:
                rep.und('%s:delivery' % kk, 'delivery in a nested loop')
                return
            pushes.append(e)
    if len(pushes) != 1:
        rep.check(None if vg else False, '%s:once' % kk, 'a receiver gets a routed event exactly once (here %d times)' % len(pushes), sm.at(pushes[0]) if pushes else w)
        return
    e = pushes[0]
    m = mlit(f, X)
    rep.check(True if e.obj[1] == X else None if vague(e.obj) else False, '%s:receiver' % kk, 'the event goes to the receiver that was found', sm.at(e))
    v = val(e.args[0])
    pv = v if e.obj[2] == 'inputs' else get(v, 'second')
    pn, vl = deld(get(pv, 'pin')), deld(get(pv, 'value'))
    rep.check(True if pn == get(c, 'first') else None if vague(pn) and not foreign(pn, c, C) else False, '%s:pin' % kk, 'the receiver sees the event on the last pin of the route (here on %s)' % fmt(pn), sm.at(e))
    rep.check(True if vl == get(x, 'value') else None if vague(vl) and not foreign(vl, x, Ls) else False, '%s:value' % kk, 'the value is delivered unchanged (here %s)' % fmt(vl), sm.at(e))
    if e.name != 'push':
        rep.und('%s:order' % kk, 'pushed at the front')
    if e.obj[2] == 'revisable_inputs':
        fr = deld(get(v, 'first'))
        if src is None:
            rep.und('%s:producer' % kk, 'producer unknown')
        else:
            rep.check(True if fr == src or (src == NULL and fr[0] == 'null') else None if vague(fr) else False, '%s:producer' % kk,
                      'a delivery that can be withdrawn names its producer (here %s)' % fmt(fr), sm.at(e))
    elif m is True or helper:
        rep.check(None if vg else False, '%s:revisable' % kk, 'deliveries to or from Mealy models can be withdrawn', sm.at(e))
    elif m is None and not helper:
        rep.check(None if vg else False, '%s:revisable' % kk, 'deliveries to Mealy models can be withdrawn', sm.at(e))
    if helper:
        rec_ = holds(p.facts, p.trace, fld(src, 'receivers'), X)
        rep.check(bool(rec_) or (None if vg else False), '%s:receivers-noted' % kk, 'a Mealy model remembers who received its output', sm.at(e))
    # membership in the next state change
    into_active = S.joins(p.trace, X, f=p.facts)
    into_orph = holds(p.facts, p.trace, S.ORPH, X)
    if m is False or m is None and into_active:
        rep.check(True if into_active else None if vg or into_active is None else False, '%s:active' % kk, 'a receiver takes part in the next state change', sm.at(e))
        if m is None and not into_orph:
            rep.check(None if vg else False, '%s:mealy' % kk, 'a Mealy receiver is evaluated', sm.at(e))
        return
    if into_orph:
        rep.ok('%s: a Mealy receiver is queued for evaluation' % kk)
        return
    # a local collection whose members are evaluated afterwards
    loc = None
    for l, (init, t, ups) in C.updates.items():
        for pp, v2 in ups:
            if pp is p or pp == p:
                if v2 is not None and v2[0] in ('ins', 'push') and X in v2[2:]:
                    if islocal(l):
                        loc = l
        if islocal(l) and known(p.facts, l, X):
            loc = l
    if loc is not None:
        for y in events(st.trace, 'loop'):
            L = y.x
            if L.cloc == loc and any(z.k == 'call' and z.name in ev and any(val(a) == ('elem', L.id) for a in z.args) for q in L.paths for z in q.trace):
                if reg_rule(rep, '%s:evaluated' % kk, L, 'every Mealy receiver is evaluated', sm.prog.where(L.line)):
                    for q in L.paths:
                        n = sum(1 for z in q.trace if z.k == 'call' and z.name in ev and any(val(a) == ('elem', L.id) for a in z.args))
                        rep.check(True if n else None if vague_path(q.facts) else False, '%s:evaluated' % kk, 'every Mealy receiver is evaluated', sm.prog.where(L.line))
                return
    direct = any(z.k == 'call' and z.name in ev and any(val(a) == X for a in z.args) for z in p.trace)
    if direct:
        rep.und('%s:evaluated' % kk, 'evaluated while routing')
        return
    rep.check(None if vg or loc is not None else False, '%s:mealy' % kk, 'a Mealy receiver is evaluated', sm.at(e))


def sources(S, rep, sm, st):
    """every produced event is routed exactly once"""
    W = sm.prog.where
    kk = sm.fn['n']
    for e, f, ch, i, tr in walk(st.trace):
        if e.k == 'call' and e.name in OUTF:
            outs = [y.x for y in tr[i + 1:] if y.k == 'loop' and y.x.over is not None and y.x.over[0] == 'filled' and
                    y.x.over[1][0] == 'ap' and str(y.x.over[1][1]).startswith('out:' + e.name)]
            if any(L.partial for L in outs):
                continue
            routed = [L for L in outs if any(z.name == 'route' for p in L.paths for z in events(p.trace, 'call'))]
            if len(routed) != 1:
                rep.check(None if vague_path(f) or not outs and any(y.k == 'loop' for y in tr[i + 1:]) else False, '%s:routed' % kk, 'the output of a model is routed once (here %d times)' % len(routed), sm.at(e))
                continue
            one_route(rep, sm, kk, routed[0])
    if sm.fn['n'] == 'computeNextOutput':
        ex = [L for _, L in tops(st.trace) if L.over is not None and deld(L.over) == ld(S.EXTIN)]
        routed = [L for L in ex if any(z.name == 'route' for p in L.paths for z in events(p.trace, 'call'))]
        if len(routed) != 1:
            rep.check(False if not routed and not vague_path(st.facts) and st.mem.get(S.EXTIN) == EMPTY else None, '%s:injected' % kk, 'injected events are routed once (here %d times)' % len(routed), sm.where)
        else:
            one_route(rep, sm, kk + ':injected', routed[0])


def one_route(rep, sm, kk, L):
    if not reg_rule(rep, '%s:all' % kk, L, 'every event is routed', sm.prog.where(L.line)):
        return
    for p in L.paths:
        n = sum(1 for y in p.trace if y.k == 'call' and y.name == 'route')
        nn = sum(1 for y in events(p.trace, 'call', 'route'))
        if n != nn:
            rep.und('%s:routed' % kk, 'routing in a nested loop')
            continue
        rep.check(True if n == 1 else None if vague_path(pfacts(p.facts)) else False, '%s:routed' % kk, 'every event is routed exactly once (here %d times)' % n, sm.prog.where(L.line))


def gather(S, rep, sm, st, ev):
    W = sm.prog.where
    g = gather_loops(S, st)
    if len(g) != 1:
        any_rev = any(e.k == 'mut' and e.name in PUSH and e.obj[2:] == ('revisable_inputs',) for e in events(st.trace))
        rep.check(False if not g and any_rev and not vague_path(st.facts) and not any(
            e.k == 'loop' and e.x.cloc and e.x.cloc[-1] == 'revisable_inputs' or e.k == 'mut' and e.obj[-1] == 'inputs' and e.name in ('assign', 'insrange')
            for e in events(st.trace)) else None, 'gather', 'inputs from Mealy models are collected before the state change', sm.where)
        return
    i, L = g[0]
    if not reg_rule(rep, 'gather:traversal', L, 'inputs from Mealy models are collected for every active model', W(L.line)):
        return
    late = [e for y in st.trace[i + 1:] for e in events((y,)) if e.k == 'mut' and e.name in PUSH + ('ins',) and
            (e.obj == S.ACTIVE or e.obj[-1] == 'revisable_inputs') or e.k == 'call' and e.name in ev]
    rep.check(not late, 'gather:last', 'inputs are collected after every output is known', sm.at(late[0]) if late else sm.where)
    el = ('elem', L.id)
    for p in L.paths:
        ls = [y.x for y in p.trace if y.k == 'loop' and y.x.cloc == fld(el, 'revisable_inputs')]
        if len(ls) != 1:
            app = p.st.mem.get(fld(el, 'inputs'))
            rep.check(None if ls or vague_path(pfacts(p.facts)) or (app is not None and vague(app)) else False, 'gather:all', 'the inputs from Mealy models are collected once for each active model (here %d times)' % len(ls), W(L.line))
            continue
        G = ls[0]
        if not reg_rule(rep, 'gather:each', G, 'every input from a Mealy model is collected', W(G.line)):
            continue
        if G.over is None or deld(G.over) != ld(fld(el, 'revisable_inputs')):
            rep.check(None, 'gather:each', 'the collection is complete', W(G.line))
        for q in G.paths:
            ps = [e for e in q.trace if e.k == 'mut' and e.name in PUSH and e.obj == fld(el, 'inputs')]
            good = len(ps) == 1 and val(ps[0].args[0]) == get(('elem', G.id), 'second')
            rep.check(True if good else None if vague_path(pfacts(q.facts)) or (ps and vague(val(ps[0].args[0]))) else False, 'gather:push', 'each input from a Mealy model is added to the input of its receiver exactly once and unchanged', W(G.line))


# ---------------------------------------------------------------- S05
LISTENERS = ('outputEvent', 'inputEvent', 'stateChange')


def has_ev(e, names):
    return any(x.k == 'call' and x.name in names for x in events((e,)))


class Cover:
    """the events of one name in a trace as a nest of complete traversals"""
    def __init__(self, rep, sm, key, what):
        self.rep, self.sm, self.key, self.what = rep, sm, key, what
        self.seen = set()

    def run(self, trace, name, want, args, facts, need=True):
        """want: [predicate on loops]; args(event, {pred index: element}) checks the call.  True/False/None"""
        items = [e for e in trace if has_ev(e, (name,))]
        vg = vague_path(pfacts(facts))
        if not items:
            if need:
                self.rep.check(None if vg else False, self.key + ':missing', self.what + ' (here never)', self.sm.where)
            return
        if len(items) > 1:
            for e in items:
                self.mark(e, name)
            full = [e for e in items if e.k == 'loop' and regular(e.x)]
            self.rep.check(None if vg or len(full) != len(items) and any(x.k == 'loop' for x in items) else False, self.key + ':once',
                           self.what + ' exactly once (here %d times)' % len(items), self.sm.at(items[1]) if items[1].k == 'call' else self.sm.prog.where(items[1].x.line))
            return
        self.item(items[0], name, list(enumerate(want)), {}, args, facts)

    def mark(self, e, name):
        for x in events((e,), 'call', name):
            self.seen.add(id(x))

    def item(self, e, name, want, got, args, facts):
        w = self.sm.prog.where
        if e.k == 'call':
            self.seen.add(id(e))
            if want:
                self.rep.check(None if vague_path(pfacts(facts)) else False, self.key + ':traversal', self.what + ': one call stands for several', self.sm.at(e))
                return
            args(e, got)
            return
        L = e.x
        self.mark(e, name)
        m = [(i, p) for i, p in want if p(L)]
        if not m:
            self.rep.und(self.key, 'traversal of %s not expected' % (fmt(L.cloc) if L.cloc else '?'))
            return
        if not reg_rule(self.rep, self.key + ':all', L, self.what, w(L.line)):
            return
        i = m[0][0]
        rest = [(j, p) for j, p in want if j != i]
        got = dict(got)
        got[i] = ('elem', L.id)
        for p in L.paths:
            f = dict(facts)
            f.update(p.facts)
            items = [x for x in p.trace if has_ev(x, (name,))]
            vg = vague_path(pfacts(f))
            if len(items) != 1:
                self.rep.check(None if vg else False, self.key + ':each', self.what + ' (on one path %d times)' % len(items), w(L.line))
                continue
            self.item(items[0], name, rest, got, args, f)


def S05(cx, rep):
    """path-sensitive analysis: every listener call is the body of a nest of complete traversals over listeners and events"""
    S = Sim(cx)
    cno, hs = out_summaries(cx, S, rep)
    cns = sim_fn(cx, rep, 'computeNextState')
    lis = lambda L: L.cloc == S.LISTEN
    # state changes and inputs
    for st in cns.normal():
        groups = composites(st, rep, cns.prog.where)
        own = [g for g in groups if any(touches(c.trace, E, DELTA) for c in g[2])]
        if len(own) != 1:
            raise Undecided('transitions are spread over several collections')
        ids = set(L.id for L in own[0][1])
        for c in own[0][2]:
            d = [i for i, e in enumerate(c.trace) if e.k == 'call' and e.name in DELTA and e.obj == E]
            Emp = c.facts.get(('emptyc', ld(fld(E, 'inputs'))))
            if not d:
                for e in events(c.trace, 'call', LISTENERS):
                    if e.name == 'inputEvent' and Emp is True:
                        continue
                    rep.check(None if vague_path(c.facts) else False, 'idle:%s' % e.name, 'nothing is reported for a model that makes no transition', cns.at(e))
                continue
            d = d[0]
            inp = lambda L: deld(L.over) == ld(fld(E, 'inputs')) if L.over is not None else False

            def a_in(e, got):
                model_arg(rep, cns, e, E, 'inputEvent')
                arg_is(rep, cns, e, 1, got[0], 'inputEvent:value', 'the input itself is reported')
                arg_is(rep, cns, e, 2, S.TNEXT, 'inputEvent:time', 'an input is reported at the time of the event')
                obj_is(rep, cns, e, got[1], 'inputEvent')

            def a_sc(e, got):
                model_arg(rep, cns, e, E, 'stateChange')
                arg_is(rep, cns, e, 1, S.TNEXT, 'stateChange:time', 'a state change is reported at the time of the event')
                obj_is(rep, cns, e, got[0], 'stateChange')
            if Emp is not True:
                Cover(rep, cns, 'inputEvent', 'every listener is told of every input').run(c.trace, 'inputEvent', [inp, lis], a_in, c.facts)
                late = [e for e in c.trace[d:] if has_ev(e, ('inputEvent',))]
                rep.check(not late, 'inputEvent:order', 'inputs are reported before the transition', cns.where)
                cleared = [i for i, e in enumerate(c.trace) if e.k == 'mut' and e.obj == fld(E, 'inputs')]
                first = [i for i, e in enumerate(c.trace) if has_ev(e, ('inputEvent',))]
                if cleared and first and cleared[0] < first[0]:
                    rep.bad('inputEvent:late', 'inputs are removed before they are reported', cns.where)
            Cover(rep, cns, 'stateChange', 'every listener is told of every state change').run(c.trace, 'stateChange', [lis], a_sc, c.facts)
            early = [e for e in c.trace[:d] if has_ev(e, ('stateChange',))]
            rep.check(not early, 'stateChange:order', 'a state change is reported after the transition', cns.where)
        for e, f, ch, i, tr in walk(st.trace):
            if e.k == 'call' and e.name in LISTENERS:
                if e.name == 'outputEvent':
                    rep.bad('outputEvent:late', 'outputs are reported by the state change', cns.at(e))
                if not any(L.id in ids for L, _ in ch):
                    rep.bad('stray:%s' % e.name, '%s is reported outside the traversal of active models' % e.name, cns.at(e))
    # outputs
    for st in cno.normal():
        seen = set()
        rets, imm = imm_loops(S, st)
        g = gather_loops(S, st)
        if len(g) != 1:
            rep.und('outputEvent', 'no gathering traversal')
            continue

        def cover(el, trace, over, facts, key, need=True):
            def a_out(e, got):
                model_arg(rep, cno, e, el, 'outputEvent')
                arg_is(rep, cno, e, 1, got[0], 'outputEvent:value', 'the output itself is reported')
                arg_is(rep, cno, e, 2, S.TNEXT, 'outputEvent:time', 'an output is reported at the time of the event')
                obj_is(rep, cno, e, got[1], 'outputEvent')
            c = Cover(rep, cno, key, 'every listener is told of every output')
            c.run(trace, 'outputEvent', [over, lis], a_out, facts, need)
            seen.update(c.seen)
        L = g[0][1]
        el = ('elem', L.id)
        ov = lambda M_: M_.over is not None and deld(M_.over) == ld(fld(el, 'outputs'))
        moore_late = None
        for p in L.paths:
            m = mlit(p.facts, el)
            h = any(has_ev(e, ('outputEvent',)) for e in p.trace)
            if m is not False:
                cover(el, p.trace, ov, p.facts, 'outputEvent:mealy')
            if m is not True:
                moore_late = h if moore_late in (None, h) else 'mixed'
                if m is False and h:
                    cover(el, p.trace, ov, p.facts, 'outputEvent:moore')
        for i, M_, call, ch in imm:
            e2 = ('elem', M_.id)
            o2 = lambda Q: Q.over is not None and Q.over[0] == 'filled' and contains(Q.over, lambda t: len(t) > 1 and t[0] == 'ap' and str(t[1]).startswith('out:output_func')) and Q.cloc == fld(e2, 'outputs')
            for p in M_.paths:
                m = mlit(p.facts, e2)
                h = any(has_ev(e, ('outputEvent',)) for e in p.trace)
                if m is True:
                    if h:
                        rep.bad('outputEvent:mealy-early', 'an output of a Mealy model is reported before it is final', cno.where)
                    continue
                if moore_late == 'mixed':
                    rep.und('outputEvent', 'outputs of Moore models reported on some paths')
                elif moore_late and h:
                    rep.bad('outputEvent:twice', 'outputs are reported twice', cno.where)
                elif not moore_late:
                    cover(e2, p.trace, o2, p.facts, 'outputEvent:moore')
        for e, f, ch, i, tr in walk(st.trace):
            if e.k == 'call' and e.name in LISTENERS and id(e) not in seen and not any(L2.partial for L2, _ in ch):
                if e.name != 'outputEvent' or not ch:
                    rep.bad('stray:%s' % e.name, '%s is reported while the output is computed' % e.name, cno.at(e))
                elif not any(L2 is L or any(L2 is M_ for _, M_, _, _ in imm) for L2, _ in ch):
                    rep.bad('stray:outputEvent', 'an output is reported that is not the output of a due or Mealy model', cno.at(e))
    for n, h in hs.items():
        for st in h.states:
            for e in events(st.trace, 'call', LISTENERS):
                rep.bad('early:%s' % n, '%s is reported before the output of Mealy models is final' % e.name, h.at(e))
        rep.ok('no listener is told anything in ' + n)
    # registration
    p = cx.prog('core')
    s = cx.summary('core', need(p, 'adevs::Simulator', 'addEventListener')[0], 'sim').use(rep)
    a = s.fn['params'][0]['n']
    for st in s.normal():
        v = st.mem.get(S.LISTEN)
        good = False
        if v is not None:
            good = True if v[0] == 'push' and deld(v[1]) == ld(S.LISTEN) and contains(v[2], lambda t: len(t) > 1 and t[0] == 'p' and t[1] == a) else \
                None if vague(v) else False
        rep.check(good, 'register', 'a registered listener joins those already registered', s.where)
    for f in list(p.fn.values()):
        if f.get('clsb') == 'adevs::Simulator' and f.get('body') is not None and f['n'] not in ('computeNextOutput', 'computeNextState', 'execNextEvent', 'addEventListener', 'Simulator', '~Simulator') and f['n'] not in hs and f.get('acc') != 2:
            try:
                o = cx.summary('core', f, 'sim').use(rep)
            except Undecided as x:
                rep.und('listeners in ' + f['n'], str(x))
                continue
            for st in o.states:
                for e in events(st.trace):
                    if e.k == 'call' and e.name in LISTENERS:
                        rep.bad('stray:%s' % f['n'], '%s reports %s' % (f['n'], e.name), o.at(e))
                    if e.k in ('mut', 'wr') and e.obj == S.LISTEN:
                        rep.bad('listeners:%s' % f['n'], '%s changes the registered listeners' % f['n'], o.at(e))


def model_arg(rep, sm, e, sym, key):
    a = e.args[0]
    l = a.loc
    rep.check(True if l == ('obj', sym) else None if l is None or vague(l) else False, key + ':model', 'the report names the model concerned', sm.at(e))


def arg_is(rep, sm, e, i, want, key, what):
    if i >= len(e.args):
        rep.und(key, 'argument missing')
        return
    v = deld(val(e.args[i]))
    if v != want and vague(v):
        w = first_value(sm, v)
        if w is not None and deld(w) != want:
            rep.bad(key, what + ' (here it is %s to begin with)' % fmt(deld(w)), sm.at(e))
            return
    rep.check(True if v == want else None if vague(v) else False, key, what + ' (here %s)' % fmt(v), sm.at(e))


def obj_is(rep, sm, e, want, key):
    o = deld(e.obj)
    rep.check(True if o == want else None if vague(o) else False, key + ':listener', 'each listener is told itself', sm.at(e))
