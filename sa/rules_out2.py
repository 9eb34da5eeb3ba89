"""S06 (structure changes) and S07 (Mealy models)."""
from rulelib import *
from rules_sim import *
from rules_out import *
from terms import get

OPS = {'ADD_ATOMIC': ('add_atomic', ('m',)), 'REMOVE_ATOMIC': ('remove_atomic', ('m',)), 'REMOVE_PIN': ('remove_pin', (0,)),
       'CONNECT_PIN_TO_PIN': ('connect', (0, 1)), 'DISCONNECT_PIN_FROM_PIN': ('disconnect', (0, 1)),
       'CONNECT_PIN_TO_ATOMIC': ('connect', (0, 'm')), 'DISCONNECT_PIN_FROM_ATOMIC': ('disconnect', (0, 'm'))}
GOPS = ('add_atomic', 'remove_atomic', 'remove_pin', 'connect', 'disconnect')


def enum_values(cx):
    p = cx.prog('core')
    out = {}
    for f in p.fn.values():
        pass
    for e in p.enums:
        for x in e.get('c', e.get('v', [])) if isinstance(e, dict) else []:
            pass
    return out


def S06(cx, rep):
    """path-sensitive analysis of how computeNextState carries out queued structure changes"""
    S = Sim(cx)
    sm = sim_fn(cx, rep, 'computeNextState')
    W = sm.prog.where
    PEND = ('f', ld(fld(S.this, S.graph_f)), '#pending')
    ispend = lambda l: l is not None and deld(l) == PEND
    for st in sm.normal():
        loops = [(i, L) for i, L in tops(st.trace) if ispend(L.cloc) or (L.over is not None and deld(L.over) == ld(PEND))]
        work = [(i, L) for i, L in loops if any(e.name in GOPS for p in L.paths for e in events(p.trace, 'call'))]
        vg = vague_path(st.facts)
        if len(work) != 1:
            stray = [e for e in events(st.trace, 'call') if e.name in GOPS]
            rep.check(None if vg or work or loops or stray else False, 'pending:applied', 'queued structure changes are carried out (by %d traversals)' % len(work), sm.where)
            continue
        i, L = work[0]
        if L.kind == 'lifo':
            rep.bad('pending:order', 'queued structure changes are carried out in reverse order', W(L.line))
            continue
        if not reg_rule(rep, 'pending:all', L, 'every queued structure change is carried out', W(L.line)):
            continue
        if L.kind == 'each':
            left = [v for k, v in st.mem.items() if ispend(k)]
            moved = L.cloc is not None and not ispend(L.cloc)
            rep.check(True if left and left[-1] == EMPTY else (None if left and vague(left[-1]) else False), 'pending:once', 'a queued structure change is carried out only once', W(L.line))
        else:
            rep.ok('pending:once: each queued change is removed from the queue when carried out')
        # position
        own = [j for j, e in enumerate(st.trace) if has_ev(e, DELTA)]
        rep.check(all(j < i for j in own), 'pending:after', 'structure changes follow all state transitions', W(L.line))
        prov = [(j, e) for j, e in enumerate(st.trace) if e.k == 'call' and e.name == 'set_provisional']
        for j, e in prov:
            rep.check(True if S.is_graph(e.obj) else None, 'provisional:graph', 'the simulated graph is switched', sm.at(e))
        before = [val(e.args[0]) for j, e in prov if j < i]
        after = [val(e.args[0]) for j, e in prov if j > i]
        inner = [e for p in L.paths for e in events(p.trace, 'call', 'set_provisional')]
        if inner:
            rep.und('provisional', 'the mode changes while changes are carried out')
        else:
            rep.check(bool(before) and before[-1] == FALSE, 'provisional:off', 'changes take effect when they are carried out', W(L.line))
            rep.check(bool(after) and after[-1] == TRUE, 'provisional:on', 'changes are only queued again afterwards', W(L.line))
            early = [j for j, e in prov if val(e.args[0]) == FALSE and any(o > j for o in own)]
            rep.check(not early, 'provisional:early', 'changes made by transitions are only queued', W(L.line))
        for e, f, ch, k, tr in walk(st.trace):
            if e.k == 'call' and e.name in GOPS and e.cls.split('<')[0] == 'adevs::Graph' and not (ch and ch[0][0] is L):
                rep.check(None if vg else False, 'pending:stray', 'structure changes come only from the queue', sm.at(e))
        for p in L.paths:
            pend_path(S, sm, rep, p, L)
        covered(S, sm, rep, L)
    # exceptions while a joining model is scheduled are S02; constructors leave the graph queueing
    p = cx.prog('core')
    for f in need(p, 'adevs::Simulator', 'Simulator'):
        if f.get('body') is None or len(f.get('params', [])) != 1 or not re.search(r'shared_ptr<adevs::', p.t(f['params'][0]['t'])):
            continue
        s = cx.summary('core', f, 'sim').use(rep)
        for st in s.normal():
            pr = [e for e in events(st.trace, 'call', 'set_provisional')]
            G = st.mem.get(fld(S.this, S.graph_f))
            rep.check(bool(pr) and val(pr[-1].args[0]) == TRUE and (G is None or deld(pr[-1].obj) == deld(G) or deld(pr[-1].obj) == ld(fld(S.this, S.graph_f))),
                      'ctor:provisional', 'a simulator leaves its graph queueing changes', s.where)
            idx = [i for i, e in enumerate(st.trace) if e.k == 'call' and e.name == 'set_provisional' and val(e.args[0]) == TRUE]
            late = [e for i, e in enumerate(st.trace) if e.k == 'call' and e.name in ('add_atomic', 'assign_to_graph') and idx and i > idx[0]]
            rep.check(not late, 'ctor:early', 'models join the graph before it starts to queue changes', s.where)


def enumof(facts, el):
    """names known equal / unequal to the operation"""
    eq, ne = set(), set()
    for a, s in facts.items():
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'enum' and y == get(el, 'op'):
                    (eq if s else ne).add(x[1])
    return eq, ne


def covered(S, sm, rep, L):
    el = ('elem', L.id)
    for v in OPS:
        hit = False
        for p in L.paths:
            eq, ne = enumof(p.facts, el)
            if v in eq or (not eq and v not in ne):
                hit = True
        rep.check(True if hit else None, 'op:%s:covered' % v, 'the operation has a path', sm.prog.where(L.line))


def pend_path(S, sm, rep, p, L):
    el = ('elem', L.id)
    f = pfacts(p.facts)
    vg = vague_path({a: s for a, s in f.items() if a[0] != 'emptyc'})
    eq, ne = enumof(f, el)
    cand = [v for v in OPS if (v in eq) or (not eq and v not in ne)]
    g = gen_elem(L)
    tr = map_trace(p.trace, g)
    calls = [e for e in events(tr, 'call') if e.name in GOPS]
    if any(e.k == 'loop' and any(x.name in GOPS for x in events((e,), 'call')) for e in tr):
        rep.und('op', 'nested loop while a change is carried out')
        return
    for v in cand:
        name, roles = OPS[v]
        want = tuple(get(E, 'model') if r == 'm' else get(get(E, 'pin'), '[%d]' % r) for r in roles)
        if not (len(calls) == 1 and calls[0].name == name and tuple(deld(val(a)) for a in calls[0].args) == want):
            und = vg or any(vague(val(a)) for c in calls for a in c.args)
            rep.check(None if und else False, 'op:%s' % v, 'the queued request is carried out as requested (here %s)' %
                      ('; '.join('%s(%s)' % (c.name, ', '.join(fmt(val(a)) for a in c.args)) for c in calls) or 'nothing is done'),
                      sm.at(calls[0]) if calls else sm.prog.where(L.line))
            continue
        if not S.is_graph(calls[0].obj):
            rep.check(None if vague(calls[0].obj) else False, 'op:graph', 'the simulated graph is changed', sm.at(calls[0]))
        rep.ok('op:%s: carried out as requested' % v)
        ci = [i for i, e in enumerate(tr) if e is calls[0]][0]
        m = get(E, 'model')
        sch = [e for e in events(tr, 'call', ('schedule',)) if val(e.args[0]) == m]
        tas = [e for e in events(tr, 'call', ('ta',)) if e.obj == m]
        wrs = [e for e in events(tr, 'wr') if e.obj in (fld(m, 'tL'), fld(m, 'tN'))]
        pres = None
        late = False
        sure_late = not any(e.k in ('call', 'loop') for e in tr[:ci])     # what is tested after the first call is tested after the change
        tests = []
        for a, s in p.facts.items():
            if a[0] == 'has' and deld(a[2]) == get(('elem', L.id), 'model') and a[1][0] == 'ld' and a[1][1][0] == 'f' and a[1][1][2] == '#atomics':
                ep = a[1][2]
                tests.append((isinstance(ep, tuple) and ep[1] != 0, s))
        if tests:
            late, pres = tests[-1]
        if v == 'ADD_ATOMIC' and len(tests) == 1 and late and sure_late:
            # a model that has just joined is always found
            if pres is False:
                continue
            if not sch:
                rep.check(None if vg else False, 'add:scheduled', 'a model that joins is scheduled (it is looked for after it was added)', sm.prog.where(L.line))
            else:
                rep.check(None if vg else False, 'add:present', 'a model that is already present keeps its place in time (it is looked for after it was added)', sm.at(sch[0]))
            continue
        at = sm.at(sch[0]) if sch else sm.prog.where(L.line)
        if v == 'ADD_ATOMIC':
            if pres is True:
                if late:
                    rep.und('add', 'membership tested after the model joined')
                else:
                    rep.check(not sch and not tas and not wrs, 'add:present', 'a model that is already present keeps its place in time', at)
            elif pres is False:
                if late:
                    rep.und('add', 'membership tested after the model joined')
                else:
                    sched_rule(S, sm, rep, 'add', m, tr, {g(a): s for a, s in f.items()}, S.NOW, -1, sm.at)
            elif sch:
                rep.check(None if vg or any(contains(a, lambda t: t == get(('elem', L.id), 'model')) for a in f) else False, 'add:present', 'a model that is already present keeps its place in time', at)
            else:
                rep.check(None if vg else False, 'add:scheduled', 'a model that joins is scheduled', at)
        elif v == 'REMOVE_ATOMIC':
            if pres is None:
                rep.check(None if vg or any(contains(a, lambda t: t == get(('elem', L.id), 'model')) for a in f) else False,
                          'remove:present' if sch else 'remove:unscheduled', 'a model is unscheduled just when its last instance leaves', at)
            elif not late:
                if pres is True and sch:
                    rep.check(None if vg else False, 'remove:present', 'a model of which instances remain keeps its place in time', at)
                elif pres is True and not sch:
                    rep.check(None if vg else False, 'remove:unscheduled', 'a model that has left is unscheduled', at)
                else:
                    rep.und('remove', 'membership tested before the model left')
            elif pres is True:
                rep.check(not sch and not wrs, 'remove:present', 'a model of which instances remain keeps its place in time', at)
            else:
                good = len(sch) == 1 and val(sch[0].args[1]) == ('c', 'inf')
                rep.check(True if good else None if vg else False, 'remove:unscheduled', 'a model that has left altogether is unscheduled', at)
        else:
            rep.check(not sch and not wrs, 'op:%s:time' % v, 'other changes leave the schedule alone', at)


# ---------------------------------------------------------------- S07
def S07(cx, rep):
    """path-sensitive analysis of the evaluation and withdrawal of Mealy outputs and of cycle detection"""
    S = Sim(cx)
    cno, hs = out_summaries(cx, S, rep)
    evs = evaluators(hs)
    if len(evs) != 1:
        if not evs and not any(e.name in ('confluent_output_func', 'external_output_func') for st in cno.states for e in events(st.trace, 'call')):
            rep.bad('evaluated', 'Mealy models are never evaluated', cno.where)
            return
        raise Undecided('Mealy models are evaluated by %d recursive functions' % len(evs))
    ev = evs[0]
    h = hs[ev]
    root = root_param(h)
    rets = [n for n, s in hs.items() if n != ev and any(e.k == 'mut' and e.name in ('eraseat', 'erase', 'rm', 'clear') and e.obj[-1] == 'revisable_inputs' for st in s.states for e in events(st.trace))]
    for st in cno.normal():
        s07_cno(S, rep, cno, st, ev)
    for st in h.normal():
        s07_eval(S, rep, h, st, root, ev, rets, cno)
    for st in h.thrown():
        s07_throw(S, rep, h, st, root)
    if not h.thrown():
        rep.bad('cycle:reported', 'no exception is thrown for a cycle of Mealy models', h.where)
    for n in rets:
        for st in hs[n].normal():
            s07_retract(S, rep, hs[n], st, n)


def s07_cno(S, rep, sm, st, ev):
    W = sm.prog.where
    calls = [(i, e) for i, e in enumerate(st.trace) if any(x.name == ev for x in events((e,), 'call'))]
    for j, M_, c, ch in imm_loops(S, st)[1]:
        if not ch:
            for i, e in calls:
                rep.check(j < i, 'order:after-moore', 'Mealy models are evaluated after the other due models', W(M_.line))
    if len(calls) != 1 or calls[0][1].k != 'loop':
        rep.check(False if not calls and not vague_path(st.facts) else None, 'evaluated', 'Mealy models are evaluated (in %d places)' % len(calls), sm.where)
        return
    i, L = calls[0][0], calls[0][1].x
    if L.cloc != S.ORPH or L.kind not in ('worklist',):
        rep.und('worklist', 'evaluation by a %s over %s' % (L.kind, fmt(L.cloc) if L.cloc else '?'))
    elif not L.regular:
        rep.und('worklist', L.why)
    else:
        v = st.mem.get(S.ORPH)
        rep.check(True if v == EMPTY else None, 'worklist', 'Mealy models are evaluated until none is left', W(L.line))
        for p in L.paths:
            el = ('elem', L.id)
            c = [e for e in p.trace if e.k == 'call' and e.name == ev]
            good = len(c) == 1 and any(val(a) == el for a in c[0].args)
            rep.check(True if good else None, 'worklist:model', 'the model taken from the worklist is evaluated', W(L.line))
            for e in c:
                for a in e.args:
                    if a.loc is not None and islocal(a.loc) and 'set<' in S.p.t(0) if False else False:
                        pass
    rets, imm = imm_loops(S, st)
    for j, M_, c, ch in imm:
        if ch:
            continue
        el = ('elem', M_.id)
        for p in M_.paths:
            m = mlit(p.facts, el)
            if m is True:
                ins = holds(p.facts, p.trace, S.ORPH, el)
                rep.check(bool(ins) or (None if vague_path(pfacts(p.facts)) else False), 'due-mealy', 'a due Mealy model is evaluated', W(M_.line))
    for j, e in enumerate(st.trace):
        if j > i and any(x.name == 'route' for x in events((e,), 'call')):
            rep.bad('order:late-moore', 'outputs are routed after Mealy models are evaluated', W(e.x.line) if e.k == 'loop' else sm.at(e))


def s07_eval(S, rep, h, st, root, ev, rets, cno):
    W = h.prog.where
    kk = 'eval'
    RIN, INP, OUT = fld(root, 'revisable_inputs'), fld(root, 'inputs'), fld(root, 'outputs')
    tr = st.trace
    gl = [L for i, L in tops(tr) if L.cloc == RIN]
    gids = set(L.id for L in gl)
    # literals
    emp = due = None
    infeasible = False
    oth = False
    for a, s in st.facts.items():
        if a[0] == 'emptyc':
            c = a[1]
            if contains(c, lambda t: t == RIN) or contains(c, lambda t: len(t) > 1 and t[0] in ('coll', 'cfin') and t[1] in gids):
                emp = s if emp in (None, s) else 'bad'
            elif contains(c, lambda t: t == INP):
                infeasible = infeasible or not s     # the input list is empty before it is filled
        if a[0] in ('eq', 'lt') and contains(a, lambda t: t == fld(root, 'tN')):
            f = {deld(x): y for x, y in st.facts.items()}
            f[('lt', ld(fld(root, 'tN')), S.TNEXT)] = False
            due = decide(f, lit_eq(ld(fld(root, 'tN')), S.TNEXT))
    if emp == 'bad' or infeasible:
        return
    calls = [(i, e) for i, e in enumerate(tr) if e.k == 'call' and e.name in OUTF]
    deep = [e for e in events(tr, 'call') if e.name in OUTF]
    if len(deep) != len(calls):
        rep.und(kk, 'output function called in a loop')
        return
    got = [e.name for _, e in calls]
    vg = vague_path({a: s for a, s in pfacts(st.facts).items() if a[0] != 'emptyc'})
    want = {(True, True): ['output_func'], (True, False): [], (False, True): ['confluent_output_func'], (False, False): ['external_output_func']}
    for em in (True, False):
        for du in (True, False):
            if emp not in (None, em) or due not in (None, du):
                continue
            nm = '%s input, %sdue' % ('without' if em else 'with', '' if du else 'not ')
            rep.check(True if got == want[(em, du)] else None if vg else False, 'eval:' + nm, 'a Mealy model %s is asked %s (here %s)' % (nm, want[(em, du)] or 'for nothing', got or 'nothing'),
                      h.at(calls[0][1]) if calls else h.where)
    # removal from the worklist
    er = [i for i, e in enumerate(tr) if e.k == 'mut' and e.obj == S.ORPH and e.name == 'erase' and val(e.args[0]) == root]
    if not er:
        wl = any(e.k == 'mut' and e.obj == S.ORPH and e.name in ('erase', 'eraseat', 'pop') for s2 in cno.normal() for e in events(s2.trace))
        rep.check(None if wl or vg else False, 'worklist:removed', 'an evaluated model leaves the worklist', h.where)
    else:
        rep.ok('worklist:removed: an evaluated model leaves the worklist')
        back = [e for e in tr[er[-1]:] if e.k == 'mut' and e.obj == S.ORPH and e.name == 'ins' and val(e.args[0]) == root]
        rep.check(not back, 'worklist:back', 'an evaluated model does not return to the worklist', h.where)
    # withdrawal
    rc = [i for i, e in enumerate(tr) if e.k == 'call' and e.name in rets and any(val(a) == root for a in e.args)]
    inl = [L for _, L in tops(tr) if L.cloc == fld(root, 'receivers')]
    if not rc and inl:
        s07_retract(S, rep, h, st, None)
    elif not rc:
        inline = any(e.k == 'mut' and e.name in ('eraseat', 'rm') and e.obj[-1] == 'revisable_inputs' for e in events(tr))
        rep.check(None if inline or vg else False, 'withdraw', 'the previous output of a Mealy model is withdrawn before it is evaluated', h.where)
    else:
        firstp = [i for i, e in enumerate(tr) if has_ev(e, OUTF + ('route',)) or any(x.k == 'mut' and x.obj[-1] in ('revisable_inputs', 'receivers') and x.name in PUSH + ('ins',) for x in events((e,)))]
        rep.check(not firstp or rc[0] < firstp[0], 'withdraw:first', 'the previous output is withdrawn before a new one is produced', h.where)
        rep.check(True if len(rc) == 1 else None, 'withdraw:once', 'the previous output is withdrawn once', h.where)
    if not calls:
        routes = [e for e in events(tr, 'call', 'route')]
        rep.check(True if not routes else None, 'eval:idle', 'nothing is routed for a model that produces no output', h.where)
        v = st.mem.get(OUT)
        rep.check(True if v == EMPTY else None if vg or (v is not None and vague(v)) else False, 'eval:stale-output', 'a model that produces no output has an empty output list', h.where)
        return
    ci, c = calls[0]
    # takes part in the state change
    act = S.joins(tr, root, False, st.facts)
    rep.check(act if act is not False else (None if vg else False), 'eval:active', 'an evaluated Mealy model takes part in the next state change', h.where)
    # arguments
    o = c.args[-1]
    rep.check(True if o.val == EMPTY and o.loc == OUT else None if vague(o.val) or o.loc is None else False, 'eval:output-list', 'output is put into the model\'s own, empty list (here %s)' % fmt(o.val), h.at(c))
    if c.name != 'output_func':
        a = c.args[-2]
        v = a.val
        src = [L for L in gl if contains(v, lambda t: len(t) > 1 and t[0] in ('coll', 'cfin') and t[1] == L.id)]
        direct = v[0] == 'map' or contains(v, lambda t: t == RIN)
        if len(src) == 1:
            if reg_rule(rep, 'eval:inputs', src[0], 'all input of a Mealy model is gathered', W(src[0].line)):
                for q in src[0].paths:
                    ps = [e for e in q.trace if e.k == 'mut' and e.name in PUSH and e.obj == INP]
                    good = len(ps) == 1 and val(ps[0].args[0]) == get(('elem', src[0].id), 'second')
                    lf = [1 for _, ups in [(x[0], x[2]) for x in src[0].updates.values()] for pp, w in ups if w is not None and w[0] == 'push']
                    if not ps and lf:
                        rep.und('eval:inputs', 'gathered in a local list')
                        continue
                    rep.check(True if good else None if vague_path(pfacts(q.facts)) else False, 'eval:inputs', 'all input of a Mealy model is gathered, once and unchanged', W(src[0].line))
        else:
            rep.check(None if vague(v) or direct or v[0] in ('coll', 'app', 'filled') else False, 'eval:inputs', 'all input of a Mealy model is passed to its output function (here %s)' % fmt(v), h.at(c))
        if a.loc is not None and a.loc != INP:
            pass
    if c.name == 'external_output_func':
        a = deld(val(c.args[0]))
        rep.check(True if a == ('tsub', S.TNEXT, ld(fld(root, 'tL'))) else None if vague(a) else False, 'eval:elapsed', 'the elapsed time given to an external output is the time since the last event (here %s)' % fmt(a), h.at(c))
    # inputs are cleared afterwards (they are collected again at the end)
    v = st.mem.get(INP)
    ok = v == EMPTY or (v is not None and decide(st.facts, (('emptyc', v), True)) is True)
    last = [e for i, e in enumerate(tr) if e.k == 'mut' and e.obj == INP]
    ok = ok or (bool(last) and last[-1].name == 'clear')
    pushed = any(e.k == 'mut' and e.obj == INP and e.name in PUSH for e in events(tr))
    if pushed:
        rep.check(True if ok or emp is True else None if vg else False, 'eval:inputs-reset', 'the gathered input is dropped again, since it can still change', h.where)
    # cycle detection
    recs = [(e, ch) for e, f, ch, i, t2 in walk(tr) if e.k == 'call' and e.name == ev]
    for e, ch in recs:
        sets = [a for a in e.args if val(a) != ('elem', ch[-1][0].id if ch else None) and a.loc is not None]
        good = False
        for a in sets:
            vals = [a.val]
            for L, _ in ch:
                if a.loc in L.updates:
                    vals.append(L.updates[a.loc][0])
            if any(contains(v, lambda t: len(t) > 2 and t[0] in ('ins', 'push') and t[2] == root) for v in vals) or known(st.facts, a.loc, root):
                good = True
        rep.check(True if good else None if vg or not sets or any(vague(a.val) for a in sets) else False, 'cycle:path', 'the path of models being evaluated includes this one', h.at(e))
    pl = [a.loc for e, ch in recs for a in e.args if a.loc is not None and not islocal(a.loc)]
    for l in set(pl):
        v = st.mem.get(l)
        if v is None:
            continue
        good = v[0] == 'erase' and v[2] == root
        ins = any(e.k == 'mut' and e.obj == l and (e.name == 'ins' or e.name in PUSH) and e.args and val(e.args[0]) == root for e in tr)
        erased = [i for i, e in enumerate(tr) if e.k == 'mut' and e.obj == l and (e.name == 'erase' and val(e.args[0]) == root or ends(tr[:i], e, root))]
        if ins:
            rep.check(True if good or erased else None if vg or v[0] not in ('ins', 'push', 'cfin') else False, 'cycle:path-left', 'a model leaves the path when its evaluation is complete', h.where)
    # Mealy receivers are tested against the path
    entry = any(a[0] == 'has' and deld(a[2]) == root and s is False and a[1] != ld(S.ORPH) for a, s in st.facts.items())
    for e, f, ch, i, t2 in walk(tr):
        if e.k == 'mut' and e.obj[-1] == 'revisable_inputs' and e.name in PUSH:
            X = e.obj[1]
            if mlit(f, X) is True:
                tested = any(a[0] == 'has' and deld(a[2]) == X and s is False for a, s in f.items())
                rep.check(True if tested or entry else None if vague_path(pfacts(ch[-1][1].facts)) else False, 'cycle:tested', 'a Mealy receiver is tested for being on the path already', h.at(e))


def ends(before, e, X):
    """X, put at one end of the collection earlier on, is removed from that end"""
    puts = [x for x in before if x.k == 'mut' and x.obj == e.obj]
    return bool(puts) and puts[-1].args and val(puts[-1].args[0]) == X and (puts[-1].name, e.name) in (('push', 'popb'), ('pushf', 'pop'))


def s07_throw(S, rep, h, st, root):
    m = exc_model(st.out)
    has = [deld(a[2]) for a, s in st.facts.items() if a[0] == 'has' and s is True]
    if not has:
        rep.check(None if vague_path(st.facts) else False, 'cycle:false-alarm', 'an exception is thrown only for a cycle of Mealy models', h.where)
        return
    if m is None:
        rep.und('cycle:model', 'exception not understood')
        return
    rep.check(True if m == root or m in has else None if vague(m) else False, 'cycle:model', 'the exception identifies a model in the cycle (here %s)' % fmt(m), h.where)


def s07_retract(S, rep, sm, st, name):
    W = sm.prog.where
    root = root_param(sm)
    REC = fld(root, 'receivers')
    ls = [L for i, L in tops(st.trace) if L.cloc == REC]
    vg = vague_path(pfacts(st.facts))
    if len(ls) != 1:
        rep.check(None if vg or any(e.k == 'loop' for e in st.trace) else False, 'withdraw:receivers', 'the previous output is withdrawn from every receiver', sm.where)
        return
    L = ls[0]
    if not regular(L) and not (L.regular and L.kind == 'worklist'):
        reg_rule(rep, 'withdraw:receivers', L, 'the previous output is withdrawn from every receiver', W(L.line))
        return
    el = ('elem', L.id)
    for p in L.paths:
        f = pfacts(p.facts)
        pv = vague_path(f)
        inn = [e.x for e in p.trace if e.k == 'loop' and e.x.cloc == fld(el, 'revisable_inputs')]
        if len(inn) != 1:
            rep.check(None if pv or inn or any(e.k == 'loop' or e.k == 'mut' and e.obj == fld(el, 'revisable_inputs') for e in p.trace) else False,
                      'withdraw:inputs', 'inputs from the model are withdrawn from its receiver', W(L.line))
        elif reg_rule(rep, 'withdraw:inputs', inn[0], 'inputs from the model are withdrawn from its receiver', W(inn[0].line)):
            for q in inn[0].paths:
                x = ('elem', inn[0].id)
                er = [e for e in q.trace if e.k == 'mut' and e.name == 'eraseat' and e.obj == fld(el, 'revisable_inputs')]
                d = decide({deld(a): s for a, s in q.facts.items()}, lit_eq(get(x, 'first'), root))
                if d is None:
                    rep.check(None if vague_path(pfacts(q.facts)) or not er else False, 'withdraw:which', 'only inputs from the model itself are withdrawn', W(inn[0].line))
                else:
                    rep.check(bool(er) == d, 'withdraw:which', 'exactly the inputs from the model itself are withdrawn', W(inn[0].line))
        m = mlit(f, el)
        ins = holds(f, p.trace, S.ORPH, el, False)
        rc = any(e.k == 'call' and e.name == name and any(val(a) == el for a in e.args) for e in p.trace)
        if m is not False:
            rep.check(ins or (None if pv else False), 'withdraw:orphaned', 'a Mealy model that lost input is evaluated again', W(L.line))
            other = name is None and any(islocal(l) for l in L.updates if l[0] == 'v' and any(w is not None and w[0] in ('ins', 'push', 'coll') for _, w in L.updates[l][2]))
            # its own evaluation withdraws its outputs if they are not withdrawn here
            rep.check(rc or ins or (None if pv or m is None or other else False), 'withdraw:chain', 'the outputs of a Mealy model that lost input are withdrawn in turn', W(L.line))
        gone = any(e.k == 'mut' and e.obj == REC and e.name in ('erase', 'eraseat', 'pop') for e in p.trace) or st.mem.get(REC) == EMPTY
        rep.check(gone or (None if pv else False), 'withdraw:forgotten', 'withdrawn receivers are forgotten', W(L.line))
