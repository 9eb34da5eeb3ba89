"""G01-G04: the model graph and coupled models."""
from rulelib import *
from rules_sim import *
from rules_out import *
from rules_out2 import OPS, GOPS, enumof
from terms import get, sub, add, num, lit_zero, lit_pos, lit_emptyc

PTP = r'map<(const )?adevs::pin_t, std::(__cxx11::)?(list|vector|deque)<std::pair<adevs::pin_t, (unsigned |long )*int'
PTA = r'map<(const )?adevs::pin_t, std::(__cxx11::)?(list|vector|deque)<std::pair<std::shared_ptr<adevs::Atomic.*>, (unsigned |long )*int'
CNT = r'map<(std::shared_ptr<)?adevs::Atomic<.*>( ?\*|>), (unsigned |long )*int'
MOD = r'^std::set<std::shared_ptr<adevs::Atomic'


def root_of(loc):
    while True:
        if loc[0] in ('mv', 'ce', 'el', 'a0', 'sl'):
            loc = loc[1]
        elif loc[0] == 'f' and loc[1][0] == 'addr':
            loc = loc[1][1]
        else:
            return loc


def is_local(loc):
    r = root_of(loc)
    if r[0] == 'a0' or r[0] == 'obj':
        return False
    return r[0] in ('v', 't', 'ref')


def effective(e):
    if e.k == 'loop':
        return any(effective(x) for p in e.x.paths for x in p.trace)
    if e.k in ('wr', 'mut', 'touch'):
        return not is_local(e.obj)
    if e.k == 'call':
        return True
    return e.k in ('del', 'delete', 'new', 'free')


def effects(trace):
    return [e for e in trace if effective(e)]


def precise(st):
    """nothing on this path was approximated"""
    if st.imp or vague_path({a: s for a, s in st.facts.items() if a[0] not in ('emptyc',)}):
        return False
    return all(e.x.regular for e in events(st.trace, 'loop'))


class Gr:
    def __init__(self, cx):
        self.cx = cx
        self.p = p = cx.prog('core')
        r = rec(p, 'adevs::Graph')
        ts = {f['n']: p.t(f['t']) for f in r['f']}

        def pick(name, pat):
            c = [n for n, t in ts.items() if re.search(pat, t)]
            if name in c:
                return name
            if len(c) == 1:
                return c[0]
            raise Undecided('the graph keeps its %s in another form' % name)
        self.ptp = ('f', ('this',), pick('pin_to_pin', PTP))
        self.pta = ('f', ('this',), pick('pin_to_atomic', PTA))
        self.cnt = ('f', ('this',), pick('atomic_instance_count', CNT))
        self.mod = ('f', ('this',), pick('models', MOD))
        self.pend = ('f', ('this',), pick('pending', r'list<adevs::Graph<.*graph_op'))
        self.prov = ('f', ('this',), role(p, 'adevs::Graph', 'provisional', r'^bool$'))

    def fns(self, name):
        out = [f for f in need(self.p, 'adevs::Graph', name) if f.get('body') is not None]
        if not out:
            raise Broken('adevs::Graph::%s is gone' % name)
        return out

    def is_pend(self, e):
        return e.k in ('mut', 'wr', 'touch') and e.obj is not None and root_of(e.obj) == self.pend

    def mode(self, st):
        """True provisional / False / None not looked at"""
        for a, s in st.facts.items():
            if a[0] in ('t', 'b') and deld(a)[1] == ld(self.prov):
                return s
        return None


def kinds(p, f):
    """(pin arguments, model argument) as parameter terms"""
    pins, model = [], None
    for i, x in enumerate(f['params']):
        t = p.t(x['t'])
        v = ('p', x['n'], i)
        if 'shared_ptr' in t:
            model = v
        elif 'pin_t' in t:
            pins.append(v)
    return pins, model


def argterms(sm, f):
    """parameters are by value or const reference"""
    pins, model = kinds(sm.prog, f)
    fix = lambda v, i: v
    return pins, model


# ------------------------------------------------------------------ one entry of a connection table
class Entry:
    """what a path knows about the entry for x in the list C = M[k]"""
    def __init__(self, st, M, k, x):
        self.C = ('mv', M, k)
        self.state = None
        self.loop = None
        self.foreign = []
        f = st.facts
        for a, s in f.items():
            if a[0] == 'has' and deld(a[1]) == ld(M) and a[2] == k and s is False:
                self.state = 'absent'
        for e in st.trace:
            if e.k != 'loop':
                continue
            L = e.x
            if L.cloc != self.C or L.kind not in ('each', 'while', 'index'):
                continue
            hit = eq_first(f, L, x)
            inpath = [eq_first(p.facts, L, x) for p in L.paths]
            if L.partial or hit is not None:
                if hit is True:
                    self.state, self.loop = 'present', L
            elif f.get(('complete', L.id)):
                ok = all(h is False for h in inpath) and all(eq_first(q.facts, L, x) is True for q in L.exits)
                if ok and L.regular and L.paths and self.state is None:
                    self.state, self.loop = 'absent', L


def eq_first(facts, L, x):
    el = get(('elem', L.id), 'first')
    for a, s in facts.items():
        if a[0] == 'eq' and ((a[1] == el and a[2] == x) or (a[2] == el and a[1] == x)):
            return s
    return None


def at_entry(loc, C, pos):
    """'second' / 'whole' when loc is (part of) the entry at pos"""
    if loc == ('ce', C, pos):
        return 'whole'
    if loc[0] == 'f' and loc[1] == ('addr', ('ce', C, pos)):
        return loc[2]
    return None


def entry_change(evs, C, pos, el, facts, M, k):
    """(change of the count, erased, leftover events) of one entry"""
    delta, erased, rest = num(0), False, []
    cur = el
    for e in evs:
        if e.k == 'touch' and e.obj == M and val(e.args[0]) == k:
            continue
        w = at_entry(e.obj, C, pos) if e.k == 'wr' else None
        if w == 'second':
            delta = sub(val(e.args[0]), get(el, 'second'))
            continue
        if w == 'whole' and get(val(e.args[0]), 'first') == get(el, 'first'):
            delta = sub(get(val(e.args[0]), 'second'), get(el, 'second'))
            continue
        if e.k == 'mut' and e.name == 'eraseat' and e.obj == C and base_elem(val(e.args[0])) == el:
            erased = True
            continue
        if e.k == 'mut' and e.name == 'erase' and e.obj == M and val(e.args[0]) == k:
            em = [s for a, s in facts.items() if a[0] == 'emptyc' and contains(a[1], lambda x: x == ld(C) or (len(x) == 3 and x[0] == 'ld' and x[1] == C))]
            em += [s for a, s in facts.items() if a[0] == 'emptyc' and contains(a[1], lambda x: x[0] in ('cfin', 'cphi') and x[2] == C)]
            if em and em[-1] is True:
                continue
        rest.append(e)
    return delta, erased, rest


def base_elem(t):
    while t[0] == 'with':
        t = t[1]
    return t


def sweep_mid(L, C):
    return [e for p in L.paths for e in effects(p.trace)]


def less(facts, c):
    """does the count c drop to zero when reduced by one? (counts are positive)"""
    f = consistent(facts, [lit_pos(c, True)])
    if f is None:
        return 'dead'
    return decide(f, lit_zero(sub(c, num(1))))


def describe(evs):
    return ', '.join(repr(e)[:90] for e in evs[:3])


def G01(cx, rep):
    """path summaries of the graph's operations compared with the table of instance counts"""
    G = Gr(cx)
    W = G.p.where
    for name in ('connect', 'disconnect'):
        for f in G.fns(name):
            pins, model = kinds(G.p, f)
            if model is not None:
                M, k, x, key = G.pta, pins[0], model, name + ':model'
            else:
                M, k, x, key = G.ptp, pins[0], pins[1], name + ':pin'
            guard(rep, key, lambda: table(G, rep, cx.summary('core', f, 'graph').use(rep), M, k, x, key, name == 'connect'))
    for f in G.fns('add_atomic'):
        guard(rep, 'add', lambda: add_model(G, rep, cx.summary('core', f, 'graph').use(rep), kinds(G.p, f)[1]))
    for f in G.fns('remove_atomic'):
        guard(rep, 'remove', lambda: remove_model(G, rep, cx.summary('core', f, 'graph').use(rep), kinds(G.p, f)[1]))
    for f in G.fns('remove_pin'):
        guard(rep, 'pin', lambda: remove_pin(G, rep, cx.summary('core', f, 'graph').use(rep), kinds(G.p, f)[0][0]))
    for f in G.fns('get_atomics'):
        sm = cx.summary('core', f, 'graph').use(rep)
        for st in sm.states:
            ok = st.out is not None and st.out[0] == 'ret' and deld(st.out[1]) in (('addr', G.mod), ld(G.mod), ('ref', G.mod), G.mod)
            rep.check(True if ok and not effects(st.trace) else (False if precise(st) else None), 'atomics', 'the models reported are the set of models', sm.where)
    for f in G.p.find('adevs::Graph', 'Graph'):
        if f.get('body') is None or f.get('params'):
            continue
        sm = cx.summary('core', f, 'graph').use(rep)
        for st in sm.states:
            for l in (G.ptp, G.pta, G.cnt, G.mod):
                v = st.mem.get(l)
                rep.check(v is None or v == EMPTY, 'initial:' + l[2], 'a new graph is empty', sm.where)


def guard(rep, key, fun):
    try:
        fun()
    except Undecided as e:
        rep.und(key, str(e))


def verdict(rep, st, ok, key, what, where):
    rep.check(True if ok else (False if precise(st) else None), key, what, where)


def acting(G, sm):
    """final states in which the operation acts at once"""
    return [st for st in sm.normal() if G.mode(st) is not True]


def table(G, rep, sm, M, k, x, key, adding):
    for st in acting(G, sm):
        E = Entry(st, M, k, x)
        evs = effects(st.trace)
        where = sm.at(evs[0]) if evs else sm.where
        mids = [e for e in evs if e.k == 'loop']
        plain = [e for e in evs if e.k != 'loop']
        if mids:
            verdict(rep, st, False, key + ':others', 'other connections stay as they are', W_(sm, mids[0]))
            continue
        if E.state is None:
            rest = [e for e in plain if not (e.k == 'touch' and e.obj == M and val(e.args[0]) == k)]
            if adding or rest:
                verdict(rep, st, False, key + ':lookup', 'the connection to be changed is looked up among those of the pin (%s)' % describe(rest), where)
            else:
                verdict(rep, st, False, key + ':lookup', 'an existing connection is found', where)
            continue
        if E.state == 'absent':
            rest = [e for e in plain if not (e.k == 'touch' and e.obj == M and val(e.args[0]) == k)]
            if adding:
                good = len(rest) == 1 and rest[0].k == 'mut' and rest[0].name == 'push' and rest[0].obj == E.C and \
                    get(val(rest[0].args[0]), 'first') == x and get(val(rest[0].args[0]), 'second') == num(1)
                if not good and any(e.k == 'mut' and e.obj == M and e.name in ('ins', 'insat') for e in rest):
                    rep.und(key + ':new', 'the pin is entered in another form')
                    continue
                verdict(rep, st, good, key + ':new', 'a new connection is entered once with count one, and nothing else changes (%s)' % describe(rest), where)
            else:
                _, er, rest = entry_change(rest, E.C, None, None, st.facts, M, k)
                verdict(rep, st, not rest and not er, key + ':absent', 'removing a connection that is not there changes nothing (%s)' % describe(rest), where)
            continue
        el, pos = ('elem', E.loop.id), ('cur', E.loop.id)
        one_entry(rep, st, st.facts, plain, E.C, pos, el, M, k, key, adding, where)


def W_(sm, e):
    return sm.prog.where(e.x.line) if e.k == 'loop' else sm.at(e)


def one_entry(rep, st, facts, evs, C, pos, el, M, k, key, adding, where):
    d, erased, rest = entry_change(evs, C, pos, el, facts, M, k)
    verdict(rep, st, not rest, key + ':others', 'nothing but this connection changes (%s)' % describe(rest), where)
    if adding:
        verdict(rep, st, not erased and d == num(1), key + ':again', 'connecting again raises the count by one', where)
        return
    z = less(facts, get(el, 'second'))
    if z == 'dead':
        return
    if z is True:
        verdict(rep, st, erased, key + ':last', 'the last instance of a connection is removed', where)
    elif z is False:
        verdict(rep, st, not erased and d == num(-1), key + ':less', 'removing one of several instances lowers the count by one', where)
    else:
        verdict(rep, st, False, key + ':count', 'a connection disappears exactly when its count reaches zero', where)


def counted(G, st, m):
    """True / False / None: is the model in the graph on this path (counts of entries are positive, absent ones zero)"""
    f = st.facts
    for a, s in f.items():
        if a[0] == 'has' and a[2] == m and deld(a[1]) in (ld(G.cnt), ld(G.mod)):
            return s
    c = [x for a in f for x in subterms(a, lambda x: x[0] == 'ld' and x[1] == ('mv', G.cnt, m))]
    for t in c:
        z = decide(f, lit_zero(t))
        p = decide(f, lit_pos(t, True))
        if z is True:
            return False
        if p is True or z is False:
            return True
    return None


def count_after(G, st, m, evs):
    """('set', term) / 'erased' / None, and the events not explained"""
    out, rest = None, []
    for e in evs:
        if e.k == 'touch' and e.obj == G.cnt and val(e.args[0]) == m:
            if out is None or out == 'erased':
                out = out or None
            continue
        if e.k == 'wr' and e.obj == ('mv', G.cnt, m):
            out = ('set', val(e.args[0]))
            continue
        if e.k == 'mut' and e.obj == G.cnt and e.name in ('erase', 'ins', 'insat', 'put'):
            a = val(e.args[0])
            if e.name == 'erase' and a == m:
                out = 'erased'
                continue
            if e.name != 'erase' and len(e.args) > 1 and a == m:
                out = ('set', val(e.args[1]))
                continue
            if e.name != 'erase' and get(a, 'first') == m:
                out = ('set', get(a, 'second'))
                continue
        rest.append(e)
    return out, rest


def oldcount(G, t, m):
    """offset of t from the model's previous count"""
    for x in subterms(t, lambda x: x[0] == 'ld' and x[1] == ('mv', G.cnt, m)):
        d = sub(t, x)
        if d[0] == 'num':
            return d
    return None


def members(G, evs, m):
    """(inserted, erased, rest) of the set of models"""
    ins = er = False
    rest = []
    for e in evs:
        if e.k == 'mut' and e.obj == G.mod and e.name in ('ins', 'insat') and val(e.args[0]) == m:
            ins, er = True, False
        elif e.k == 'mut' and e.obj == G.mod and e.name == 'erase' and val(e.args[0]) == m:
            er, ins = True, False
        else:
            rest.append(e)
    return ins, er, rest


def add_model(G, rep, sm, m):
    for st in acting(G, sm):
        evs = effects(st.trace)
        where = sm.at(evs[0]) if evs else sm.where
        there = counted(G, st, m)
        c, rest = count_after(G, st, m, evs)
        ins, er, rest = members(G, rest, m)
        if any(e.k == 'loop' for e in rest):
            rep.und('add', 'a loop')
            continue
        verdict(rep, st, not rest, 'add:others', 'other models and connections are unaffected (%s)' % describe(rest), where)
        verdict(rep, st, not er, 'add:kept', 'an added model is in the set of models', where)
        d = oldcount(G, c[1], m) if isinstance(c, tuple) else None
        if there is True:
            verdict(rep, st, d == num(1), 'add:again', 'adding a model again raises its count by one', where)
        elif there is False:
            verdict(rep, st, isinstance(c, tuple) and (c[1] == num(1) or d == num(1)), 'add:first', 'a new model gets count one', where)
            verdict(rep, st, ins or known(st.facts, G.mod, m), 'add:set', 'a new model enters the set of models', where)
        else:
            verdict(rep, st, ins and d == num(1), 'add:any', 'adding raises the count by one and the model is in the set of models', where)


def remove_model(G, rep, sm, m):
    for st in acting(G, sm):
        evs = effects(st.trace)
        where = sm.at(evs[0]) if evs else sm.where
        there = counted(G, st, m)
        c, rest = count_after(G, st, m, evs)
        ins, er, rest = members(G, rest, m)
        loops = [e for e in rest if e.k == 'loop']
        rest = [e for e in rest if e.k != 'loop']
        if there is None and (c is not None or er or loops or rest):
            verdict(rep, st, False, 'remove:known', 'a model is only removed when it is in the graph', where)
            continue
        if there is None and not evs:
            verdict(rep, st, False, 'remove:done', 'a model in the graph is removed', where)
            continue
        if there is False:
            verdict(rep, st, not evs, 'remove:absent', 'removing a model that is not there changes nothing (%s)' % describe(evs), where)
            continue
        old = None
        cands = [x for a in st.facts for x in subterms(a, lambda x: x[0] == 'ld' and x[1] == ('mv', G.cnt, m))]
        old = cands[0] if cands else ('ld', ('mv', G.cnt, m), 0)
        z = less(st.facts, old)
        if z == 'dead':
            continue
        verdict(rep, st, not rest and not ins, 'remove:others', 'nothing but the model and its connections changes (%s)' % describe(rest), where)
        if z is False:
            d = oldcount(G, c[1], m) if isinstance(c, tuple) else None
            verdict(rep, st, d == num(-1) and not er and not loops, 'remove:less', 'removing one of several instances only lowers the count by one', where)
        elif z is True:
            verdict(rep, st, c == 'erased', 'remove:count', 'the count of a model that disappears is dropped', where)
            verdict(rep, st, er or known(st.facts, G.mod, m, False), 'remove:set', 'a model that disappears leaves the set of models', where)
            drop_all(G, rep, sm, st, m, loops)
        else:
            verdict(rep, st, False, 'remove:count', 'a model disappears exactly when its count reaches zero', where)


def drop_all(G, rep, sm, st, m, loops):
    """all connections to m go: every list of the table is traversed and its entries for m erased"""
    key = 'remove:connections'
    outer = [e.x for e in loops if e.x.cloc == G.pta]
    extra = [e for e in loops if e.x.cloc != G.pta]
    for L in outer:
        if L.partial or L.exits:
            reg_rule(rep, key + ':pins', L, 'the connections of every pin are looked at', sm.prog.where(L.line))
            return
    if extra:
        rep.und(key, 'another traversal')
        return
    if not outer:
        verdict(rep, st, False, key, 'connections to a model that disappears are removed', sm.where)
        return
    done = None
    for L in outer:
        if not reg_rule(rep, key + ':pins', L, 'the connections of every pin are looked at', sm.prog.where(L.line)):
            continue
        for p in L.paths:
            C = ('mv', G.pta, ('ap', None))
            evs = effects(p.trace)
            inner = [e.x for e in evs if e.k == 'loop']
            others = [e for e in evs if e.k != 'loop']
            hit = False
            for I in inner:
                if not (I.cloc is not None and I.cloc[0] == 'mv' and I.cloc[1] == G.pta):
                    rep.und(key, 'another list is traversed')
                    continue
                hit = True
                if not reg_rule(rep, key + ':list', I, 'every connection of a pin is looked at', sm.prog.where(I.line)):
                    continue
                el = ('elem', I.id)
                for q in I.paths:
                    h = eq_first(q.facts, I, m)
                    er = any(e.k == 'mut' and e.name == 'eraseat' and e.obj == I.cloc and base_elem(val(e.args[0])) == el for e in q.trace)
                    oth = [e for e in effects(q.trace) if not (e.k == 'mut' and e.name == 'eraseat')]
                    ok = (h is True and er) or (h is False and not er and not oth)
                    rep.check(True if ok else (None if vague_path(q.facts) or st.imp else False), key + ':each',
                              'exactly the connections to the removed model are erased', sm.prog.where(I.line))
            if not inner:
                # nothing happens for this pin: its list must be known not to mention the model
                em = any(a[0] == 'emptyc' and s for a, s in p.facts.items())
                rep.check(True if em else (None if not plainfacts(p.facts, L) else False), key + ':skip', 'no pin is left out', sm.prog.where(L.line))
            for e in others:
                if e.k == 'mut' and e.name in ('erase', 'eraseat') and e.obj == G.pta:
                    em = any(a[0] == 'emptyc' and s for a, s in p.facts.items())
                    rep.check(True if em else None, key + ':pin', 'only a pin without connections is dropped', sm.at(e))
                else:
                    rep.check(None, key + ':other', 'only connections to the model change', sm.at(e))
            done = hit or done


def plainfacts(facts, L):
    return not vague_path(facts)


def remove_pin(G, rep, sm, k):
    for st in acting(G, sm):
        evs = effects(st.trace)
        for M, what in ((G.pta, 'model'), (G.ptp, 'pin')):
            key = 'pin:' + what
            C = ('mv', M, k)
            absent = any(a[0] == 'has' and deld(a[1]) == ld(M) and a[2] == k and s is False for a, s in st.facts.items())
            loops = [e.x for e in evs if e.k == 'loop' and e.x.cloc == C]
            if absent and not loops:
                rep.ok(key + ': a pin without connections')
                continue
            if any(a[0] == 'emptyc' and s and deld(a[1]) == ld(C) for a, s in st.facts.items()) and not loops:
                rep.ok(key + ': a pin without connections')
                continue
            if not loops:
                verdict(rep, st, False, key + ':all', 'the connections of the pin are removed', sm.where)
                continue
            if len(loops) > 1:
                rep.und(key, 'several traversals')
                continue
            L = loops[0]
            if not reg_rule(rep, key + ':all', L, 'every connection of the pin loses an instance', sm.prog.where(L.line)):
                continue
            for p in L.paths:
                one_entry(rep, st, {**st.facts, **p.facts}, effects(p.trace), C, ('cur', L.id), ('elem', L.id), M, k, key, False, sm.prog.where(L.line))
        rest = []
        for e in evs:
            if e.k == 'loop' and e.x.cloc in (('mv', G.pta, k), ('mv', G.ptp, k)):
                continue
            for M in (G.pta, G.ptp):
                if e.k == 'touch' and e.obj == M and val(e.args[0]) == k:
                    break
                if e.k == 'mut' and e.name == 'erase' and e.obj == M and val(e.args[0]) == k:
                    C = ('mv', M, k)
                    em = [s for a, s in st.facts.items() if a[0] == 'emptyc' and contains(a[1], lambda x: len(x) > 1 and ((x[0] == 'ld' and x[1] == C) or (x[0] in ('cfin', 'cphi') and x[2] == C)))]
                    if em and em[-1] is True:
                        break
            else:
                rest.append(e)
        if any(e.k == 'loop' for e in rest):
            rep.und('pin:others', 'another traversal')
        else:
            verdict(rep, st, not rest, 'pin:others', 'nothing but the connections of the pin changes (%s)' % describe(rest), sm.at(rest[0]) if rest else sm.where)


# ------------------------------------------------------------------ G02
def G02(cx, rep):
    """path summaries of the recursive route query: one append per receiver of the pin, one recursive query per successor pin"""
    G = Gr(cx)
    for f in G.fns('route'):
        sm = cx.summary('core', f, 'graph').use(rep)
        k = None
        res = None
        for i, x in enumerate(f['params']):
            t = G.p.t(x['t'])
            if 'list<' in t:
                res = ('p', x['n'], i)
            elif 'pin_t' in t:
                k = ('p', x['n'], i)
        if k is None or res is None:
            raise Undecided('route has another signature')
        R = ('obj', res)
        isres = lambda l: l is not None and (l == R or l == ('f', res, '*') or root_of(l) == R or (l[0] == 'obj' and deld(l[1]) == res))
        rep.check(bool(f.get('const')) or None, 'const', 'a route query cannot change the graph', sm.where)
        for st in sm.normal():
            route_state(G, rep, sm, st, f, k, res, isres)


def absent_or_empty(st, M, k):
    for a, s in st.facts.items():
        if a[0] == 'has' and deld(a[1]) == ld(M) and a[2] == k and s is False:
            return True
        if a[0] == 'emptyc' and s and deld(a[1]) == ld(('mv', M, k)):
            return True
        if a[0] == 'emptyc' and s and deld(a[1]) == ld(M):
            return True
    return False


def route_state(G, rep, sm, st, f, k, res, isres):
    evs = effects(st.trace)
    done = {}
    for e in evs:
        if e.k == 'loop':
            L = e.x
            M = {('mv', G.pta, k): 'models', ('mv', G.ptp, k): 'pins'}.get(L.cloc)
            if M is None:
                rep.und('route:loop', 'a traversal of something else at %s' % sm.prog.where(L.line))
                return
            done.setdefault(M, []).append(L)
            if not reg_rule(rep, 'route:%s:all' % M, L, 'every connection of the pin is followed', sm.prog.where(L.line)):
                continue
            for p in L.paths:
                route_path(G, rep, sm, st, p, L, M, k, res, isres)
        elif e.k in ('mut', 'wr') and isres(e.obj):
            verdict(rep, st, False, 'route:only', 'only receivers found by following connections are reported (%s)' % describe([e]), sm.at(e))
        elif e.k == 'call' and e.name == 'route':
            rep.und('route:call', 'a query outside the traversal of the connections')
            return
        else:
            verdict(rep, st, False, 'route:pure', 'a query changes nothing but its result (%s)' % describe([e]), sm.at(e))
    for M, what in (('models', G.pta), ('pins', G.ptp)):
        n = len(done.get(M, []))
        if n == 1:
            rep.ok('route:%s: the connections of the pin are traversed once' % M)
        elif n == 0:
            verdict(rep, st, absent_or_empty(st, what, k), 'route:%s:missing' % M, 'the connections from the pin to %s are followed' % M, sm.where)
        else:
            verdict(rep, st, False, 'route:%s:twice' % M, 'the connections from the pin to %s are followed once' % M, sm.where)


class Body:
    pass


def route_path(G, rep, sm, st, p, L, M, k, res, isres):
    el = get(('elem', L.id), 'first')
    ev = effects(p.trace)
    where = sm.prog.where(L.line)
    vg = vague_path(p.facts)
    # traversals of the result that change nothing: they only find out what has been reported so far
    watch = {e.x.id for e in p.trace if e.k == 'loop' and e.x.kind == 'each' and isres(e.x.cloc)} - {e.x.id for e in ev if e.k == 'loop'}
    if watch and not ev:
        rest = [a for a in p.facts if a[0] not in ('complete', 'done', 'more') and not contains(a, lambda x: len(x) > 1 and x[0] in ('phi', 'fin', 'cphi') and x[1] in watch)]
        rep.check(None if vague_path(rest) else False, 'route:%s:each' % M, 'each connection is followed, whatever has been found before', where)
        return
    if any(e.k == 'loop' for e in ev):
        bad = [e.x for e in ev if e.k == 'loop' and e.x.kind == 'index' and e.x.range and not vg and not vague(e.x.range[1])]
        if bad:
            rep.bad('route:%s:each' % M, 'a connection is followed as often as a counter says (%s)' % fmt(bad[0].range[1]), where)
        elif M == 'pins' and not any(e.k == 'call' for e in ev):
            # the query at the connected pin is written out here
            b = Body()
            b.trace, b.facts, b.imp = p.trace, p.facts, st.imp
            route_state(G, rep, sm, b, sm.fn, el, res, isres)
        else:
            rep.und('route:%s' % M, 'a nested traversal')
        return
    if M == 'models':
        good = len(ev) == 1 and ev[0].k == 'mut' and ev[0].name == 'push' and isres(ev[0].obj) and \
            get(val(ev[0].args[0]), 'first') == k and get(val(ev[0].args[0]), 'second') == el
        what = 'each model connected to the pin is reported once with this pin'
    else:
        good = len(ev) == 1 and ev[0].k == 'call' and ev[0].name == 'route' and deld(ev[0].obj) == ('this',) and \
            len(ev[0].args) == 2 and val(ev[0].args[0]) == el and isinstance(ev[0].args[1], Arg) and isres(ev[0].args[1].loc)
        what = 'the query continues once at each connected pin with the same result list'
    rep.check(True if good else (None if vg else False), 'route:%s:each' % M, what + ('' if good else ' (%s)' % describe(ev)), where)


# ------------------------------------------------------------------ G03
def G03(cx, rep):
    """path summaries of every graph operation in provisional and in normal mode"""
    G = Gr(cx)
    for name in GOPS:
        for f in G.fns(name):
            pins, model = kinds(G.p, f)
            key = name + (':model' if model is not None and pins else ':pin' if len(pins) == 2 else '')
            guard(rep, key, lambda: queue_rule(G, rep, cx.summary('core', f, 'graph').use(rep), name, pins, model, key))
    for f in G.fns('set_provisional'):
        sm = cx.summary('core', f, 'graph').use(rep)
        for st in sm.normal():
            v = st.mem.get(G.prov)
            a = ('p', f['params'][0]['n'], 0)
            rest = [e for e in effects(st.trace) if not (e.k == 'wr' and e.obj == G.prov)]
            if v is None:
                v = ld(G.prov)
            okv = v == a or (decide(st.facts, (('t', a), True)) is True and v == TRUE) or (decide(st.facts, (('t', a), True)) is False and v == FALSE)
            if not okv and st.facts:
                ta, tv = decide(st.facts, (('t', a), True)), True if v == TRUE else False if v == FALSE else decide(st.facts, (('t', v), True))
                if ta is not None and tv is not None and not vague_path(st.facts, st.trace):
                    okv = ta == tv
                else:
                    rep.und('mode:set', 'set in another form')
                    continue
            verdict(rep, st, okv, 'mode:set', 'the mode becomes the one asked for', sm.where)
            verdict(rep, st, not rest, 'mode:only', 'setting the mode changes nothing else (%s)' % describe(rest), sm.where)
    for f in G.fns('get_pending'):
        sm = cx.summary('core', f, 'graph').use(rep)
        for st in sm.states:
            ok = st.out is not None and st.out[0] == 'ret' and deld(st.out[1]) in (('addr', G.pend), ld(G.pend), ('ref', G.pend), G.pend)
            verdict(rep, st, ok and not effects(st.trace), 'pending', 'the queue itself is handed out', sm.where)
    for f in G.p.find('adevs::Graph', 'Graph'):
        if f.get('body') is None or f.get('params'):
            continue
        sm = cx.summary('core', f, 'graph').use(rep)
        for st in sm.states:
            verdict(rep, st, st.mem.get(G.prov) == FALSE, 'mode:initial', 'a new graph acts at once', sm.where)
            verdict(rep, st, st.mem.get(G.pend) in (None, EMPTY), 'pending:initial', 'a new graph has no queued changes', sm.where)


def wanted(name, pins, model):
    for op, (n, roles) in OPS.items():
        if n == name and len([r for r in roles if r != 'm']) == len(pins) and (('m' in roles) == (model is not None)):
            return op, roles
    return None, ()


def queue_rule(G, rep, sm, name, pins, model, key):
    op, roles = wanted(name, pins, model)
    if op is None:
        rep.und(key, 'an operation without a request kind')
        return
    for st in sm.states:
        evs = effects(st.trace)
        mode = G.mode(st)
        evs, later = fold_back(G, evs)
        pend = [e for e in evs if any(G.is_pend(x) for x in ([e] if e.k != 'loop' else events((e,))))]
        rest = [e for e in evs if not any(e is x for x in pend)]
        where = sm.at(evs[0]) if evs else sm.where
        if mode is False:
            verdict(rep, st, not pend, key + ':immediate', 'nothing is queued in the normal mode', where)
            continue
        if mode is None:
            verdict(rep, st, not evs, key + ':mode', 'the mode decides whether a change is queued', where)
            if not evs:
                verdict(rep, st, False, key + ':lost', 'a change is queued in provisional mode', where)
            continue
        verdict(rep, st, not rest, key + ':nothing', 'models, connections and counts stay as they are in provisional mode (%s)' % describe(rest), where)
        if st.out is not None and st.out[0] == 'throw':
            verdict(rep, st, False, key + ':throw', 'queueing does not fail', where)
            continue
        back = True
        ok1 = len(pend) == 1 and pend[0].k == 'mut' and pend[0].name == 'push'
        if ok1:
            c = st.mem.get(G.pend)
            if c is not None and c[0] == 'push' and len(c) > 3:
                back = c[3] == 'b'
        if len(pend) == 1 and not ok1:
            gone = [x for x in events((pend[0],)) if G.is_pend(x) and (x.k != 'mut' or x.name in ('clear', 'erase', 'eraseat', 'pop', 'popb', 'popf'))]
            rep.check(False if gone and precise(st) else None, key + ':one', 'one request is appended', where)
            continue
        verdict(rep, st, ok1, key + ':one', 'exactly one request is queued', where)
        if not ok1:
            continue
        e = pend[0]
        v = val(e.args[0])
        verdict(rep, st, back, key + ':order', 'requests are queued in the order they are made', sm.at(e))
        got = later.get(('op',), get(v, 'op'))
        rep.check(True if got == ('enum', op) or (got[0] == 'enum' and got[1] == op) else (None if vague(got) or got[0] != 'enum' else False),
                  key + ':op', 'the request says what operation it is', sm.at(e))
        for j, r in enumerate([r for r in roles if r != 'm']):
            q = later.get(('pin', '[%d]' % j)) or later.get(('pin', j)) or pin_of(v, j)
            rep.check(True if q == pins[j] else (None if q is None or vague(q) else False), key + ':pin%d' % j, 'the request carries its pin in its role', sm.at(e))
        if 'm' in roles:
            q = later.get(('model',), get(v, 'model'))
            rep.check(True if q == model else (None if vague(q) else False), key + ':who', 'the request carries the model', sm.at(e))


def fold_back(G, evs):
    """assignments to the request just appended belong to it"""
    out, later = [], {}
    pushed = False
    for e in evs:
        if e.k == 'mut' and e.obj == G.pend:
            pushed = e.name == 'push'
            later = {}
        elif e.k == 'wr' and pushed:
            path, l = [], e.obj
            while l[0] in ('f', 'el') and l[1][0] == 'addr' or l[0] == 'el':
                path.insert(0, l[2])
                l = l[1][1] if l[1][0] == 'addr' else l[1]
            if l[0] == 'ce' and l[1] == G.pend and l[2] == ('back',):
                later[tuple(x if isinstance(x, str) else (x[1] if isinstance(x, tuple) and x[0] == 'num' else x) for x in path)] = val(e.args[0])
                continue
        out.append(e)
    return out, later


def pin_of(v, j):
    a = get(v, 'pin')
    for _ in range(6):
        if a[0] == 'with':
            for n, x in a[2]:
                if n == '[%d]' % j or n == j:
                    return x
            a = a[1]
        elif a[0] == 'dflt':
            return a
        else:
            break
    b = get(a, '[%d]' % j)
    if b[0] != 'get':
        return b
    b = T.elt(a, num(j))
    return b if b[0] != 'elt' else None


# ------------------------------------------------------------------ G04
class Co:
    def __init__(self, cx):
        self.cx = cx
        self.p = p = cx.prog('core')
        r = rec(p, 'adevs::Coupled')
        ts = {f['n']: p.t(f['t']) for f in r['f']}

        def pick(name, pat):
            c = [n for n, t in ts.items() if re.search(pat, t)]
            if name in c:
                return ('f', ('this',), name)
            if len(c) == 1:
                return ('f', ('this',), c[0])
            raise Undecided('a coupled model keeps its %s in another form' % name)
        S = r'^std::(__cxx11::)?(set|list|vector|unordered_set|multiset)<'
        self.g = pick('g', r'^adevs::Graph<.*\*$')
        self.at = pick('atomic_components', S + r'std::shared_ptr<adevs::Atomic<')
        self.co = pick('coupled_components', S + r'std::shared_ptr<adevs::Coupled<')
        self.pa = pick('pin_to_atomic', S + r'std::pair<adevs::pin_t, std::shared_ptr<')
        self.pp = pick('pin_to_pin', S + r'std::pair<adevs::pin_t, adevs::pin_t')
        ints = [n for n, t in ts.items() if isint(t) and not isbool(t)]
        self.count = ('f', ('this',), 'g_count') if 'g_count' in ints else (('f', ('this',), ints[0]) if len(ints) == 1 else None)
        self.own = (self.at, self.co, self.pa, self.pp)

    def joined(self, facts):
        """part of a simulation?"""
        for a, s in facts.items():
            if a[0] == 'eq' and NULL in (a[1], a[2]):
                o = a[2] if a[1] == NULL else a[1]
                if deld(o) == ld(self.g):
                    return not s
        return None

    def fns(self, name):
        out = [f for f in need(self.p, 'adevs::Coupled', name) if f.get('body') is not None]
        if not out:
            raise Broken('adevs::Coupled::%s is gone' % name)
        return out


def G04(cx, rep):
    """path summaries of the coupled model's edits, of joining and of leaving, compared entry by entry"""
    C = Co(cx)
    for name, gop, fld_, adding in (('add_atomic', 'add_atomic', C.at, True), ('remove_atomic', 'remove_atomic', C.at, False),
                                    ('create_coupling', 'connect', None, True), ('remove_coupling', 'disconnect', None, False),
                                    ('add_coupled_model', 'assign_to_graph', C.co, True), ('remove_coupled_model', 'remove_from_graph', C.co, False)):
        for f in C.fns(name):
            pins, m = kinds(C.p, f)
            sm = cx.summary('core', f, 'coupled').use(rep)
            if fld_ is None:
                own, item, args = (C.pa, (pins[0], m), [pins[0], m]) if m is not None else (C.pp, tuple(pins), pins)
                key = name + (':model' if m is not None else ':pin')
            else:
                own, item, args, key = fld_, m, [m], name
            guard(rep, key, lambda: edit(C, rep, sm, key, gop, own, item, args, adding, m))
    for name, join in (('assign_to_graph', True), ('remove_from_graph', False)):
        for f in C.fns(name):
            sm = cx.summary('core', f, 'coupled').use(rep)
            guard(rep, name, lambda: membership(C, rep, sm, f, name, join))
    for f in C.p.find('adevs::Coupled', 'Coupled'):
        if f.get('body') is None or f.get('params'):
            continue
        sm = cx.summary('core', f, 'coupled').use(rep)
        for st in sm.states:
            verdict(rep, st, st.mem.get(C.g) == NULL, 'initial:g', 'a new coupled model is not part of a simulation', sm.where)
            for l in C.own:
                verdict(rep, st, st.mem.get(l) in (None, EMPTY), 'initial:' + l[2], 'a new coupled model is empty', sm.where)


def has_item(facts, own, item):
    for a, s in facts.items():
        if a[0] == 'has' and deld(a[1]) == ld(own) and is_item(a[2], item):
            return s
    return None


def is_item(v, item):
    if isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], tuple):
        return get(v, 'first') == item[0] and get(v, 'second') == item[1]
    return v == item


def edit(C, rep, sm, key, gop, own, item, args, adding, m):
    for st in sm.states:
        evs = effects(st.trace)
        where = sm.at(evs[0]) if evs and evs[0].k != 'loop' else sm.where
        j = C.joined(st.facts)
        if st.out is not None and st.out[0] == 'throw':
            verdict(rep, st, False, key + ':throw', 'edits do not fail', where)
            continue
        kept, dropped, calls, loops, rest = False, False, [], [], []
        for e in evs:
            if e.k == 'mut' and e.obj == own and e.name in ('ins', 'insat', 'push') and is_item(val(e.args[0]), item):
                kept, dropped = True, False
            elif e.k == 'mut' and e.obj == own and e.name in ('erase', 'remove') and is_item(val(e.args[0]), item):
                kept, dropped = False, True
            elif e.k == 'loop':
                loops.append(e)
            elif e.k == 'call':
                calls.append(e)
            else:
                rest.append(e)
        known = [s for a, s in st.facts.items() if a[0] in ('has', 'emptyc') and len(a) > 1 and root_of(a[1][1]) in C.own if a[1][0] == 'ld']
        if known and not adding and not dropped and has_item(st.facts, own, item) is False:
            dropped = True
        if known and not (kept or dropped):
            rep.und(key + ':own', 'depends on what the coupled model holds')
            continue
        verdict(rep, st, kept if adding else dropped, key + ':own', 'the coupled model %s what it %s' % (('remembers', 'adds') if adding else ('forgets', 'removes')), where)
        verdict(rep, st, not rest, key + ':others', 'nothing else of the coupled model changes (%s)' % describe(rest), where)
        good = [e for e in calls if call_ok(C, e, gop, args)]
        other = [e for e in calls if e not in good]
        verdict(rep, st, not other, key + ':stray', 'no other change is forwarded (%s)' % describe(other), sm.at(other[0]) if other else where)
        if j is True:
            verdict(rep, st, len(good) == 1, key + ':forward', 'the change is forwarded once to the simulated graph', where)
        elif j is False:
            verdict(rep, st, not good, key + ':apart', 'a coupled model that is not part of a simulation changes no graph', where)
        else:
            verdict(rep, st, False, key + ':joined', 'whether the coupled model is part of a simulation decides what is forwarded', where)
        if gop == 'remove_atomic':
            drop_couplings(C, rep, sm, st, m, loops, key, j)
        elif loops:
            rep.und(key + ':loop', 'a traversal')


def call_ok(C, e, gop, args):
    a = [val(x) for x in e.args]
    if gop in ('assign_to_graph', 'remove_from_graph'):
        if e.name != gop or deld(e.obj) != args[0]:
            return False
        return gop == 'remove_from_graph' or (len(a) == 1 and deld(a[0]) == ld(C.g))
    return e.name == gop and deld(e.obj) == ld(C.g) and a == list(args)


def drop_couplings(C, rep, sm, st, m, loops, key, joined):
    key += ':couplings'
    mine = [e.x for e in loops if e.x.cloc == C.pa]
    if [e for e in loops if e.x.cloc != C.pa]:
        rep.und(key, 'another traversal')
        return
    if not mine:
        verdict(rep, st, False, key, 'the couplings to a removed component are removed', sm.where)
        return
    gone = set()
    for L in mine:
        if not reg_rule(rep, key + ':all', L, 'all couplings of the coupled model are looked at', sm.prog.where(L.line)):
            return
    drops = sum(1 for L in mine if any(e.k == 'mut' for p in L.paths for e in p.trace))
    sends = sum(1 for L in mine if any(e.k == 'call' for p in L.paths for e in p.trace))
    if drops != 1 or sends > 1:
        verdict(rep, st, False if drops == 0 else None, key, 'couplings to a removed component are forgotten', sm.where)
    for L in mine:
        el = ('elem', L.id)
        for p in L.paths:
            f = dict(st.facts)
            if consistent({k: v for k, v in f.items() if k[0] == 'eq'}, [(k, v) for k, v in p.facts.items() if k[0] == 'eq']) is None:
                continue
            f.update(p.facts)
            where = sm.prog.where(L.line)
            hit = None
            for a, s in p.facts.items():
                if a[0] == 'eq' and m in (a[1], a[2]) and get(el, 'second') in (a[1], a[2]):
                    hit = s
            ev = effects(p.trace)
            er = [e for e in ev if e.k == 'mut' and e.obj == C.pa and e.name in ('erase', 'eraseat') and base_elem(val(e.args[0])) == el]
            dc = [e for e in ev if e.k == 'call' and e.name == 'disconnect' and deld(e.obj) == ld(C.g)
                  and [val(x) for x in e.args] in ([get(el, 'first'), m], [get(el, 'first'), get(el, 'second')])]
            rest = [e for e in ev if e not in er and e not in dc]
            j = C.joined(f)
            if rest:
                verdict_p(rep, st, p, False, key + ':only', 'only couplings to the removed component change (%s)' % describe(rest), where)
            if hit is None:
                verdict_p(rep, st, p, not er and not dc and False, key + ':which', 'couplings are told apart by their model', where)
            elif hit is False:
                verdict_p(rep, st, p, not er and not dc, key + ':keep', 'couplings to other components stay', where)
            else:
                if any(e.k == 'mut' for q in L.paths for e in q.trace):
                    verdict_p(rep, st, p, len(er) == 1, key + ':forget', 'a coupling to the removed component is forgotten', where)
                if j is False:
                    verdict_p(rep, st, p, not dc, key + ':apart', 'a coupled model that is not part of a simulation changes no graph', where)
                elif j is True and (sends == 0 or any(e.k == 'call' for q in L.paths for e in q.trace)):
                    verdict_p(rep, st, p, len(dc) == 1, key + ':forward', 'the removal of the coupling is forwarded', where)
                elif j is None:
                    verdict_p(rep, st, p, False, key + ':joined', 'whether the coupled model is part of a simulation decides what is forwarded', where)


def verdict_p(rep, st, p, ok, key, what, where):
    rep.check(True if ok else (False if precise(st) and not vague_path(p.facts) else None), key, what, where)


def same_graph(C, st, graph):
    r = None
    for a, s in st.facts.items():
        if a[0] == 'eq' and graph is not None and graph in (a[1], a[2]) and deld(a[1] if a[2] == graph else a[2]) == ld(C.g):
            r = s
    return r


def membership(C, rep, sm, f, name, join):
    graph = ('p', f['params'][0]['n'], 0) if join and f.get('params') else None
    if join and graph is None:
        raise Undecided('joining takes another form')
    want = {C.at: 'add_atomic' if join else 'remove_atomic', C.pa: 'connect' if join else 'disconnect',
            C.pp: 'connect' if join else 'disconnect', C.co: 'assign_to_graph' if join else 'remove_from_graph'}
    for st in sm.normal():
        evs = effects(st.trace)
        gv = lambda t: deld(t) == ld(C.g) or (graph is not None and t == graph)
        seen = {}
        wrote_g, wrote_n, undone = None, None, False
        for i, e in enumerate(evs):
            if e.k == 'loop':
                L = e.x
                where = sm.prog.where(L.line)
                if L.cloc not in want:
                    rep.und(name + ':loop', 'a traversal of something else')
                    return
                k = '%s:%s' % (name, L.cloc[2])
                seen[L.cloc] = seen.get(L.cloc, 0) + 1
                if not reg_rule(rep, k + ':all', L, 'nothing is left out', where):
                    continue
                el = ('elem', L.id)
                for p in L.paths:
                    ev = effects(p.trace)
                    if L.cloc in (C.pa, C.pp):
                        ok = len(ev) == 1 and ev[0].k == 'call' and ev[0].name == want[L.cloc] and gv(ev[0].obj) and \
                            [val(x) for x in ev[0].args] == [get(el, 'first'), get(el, 'second')]
                    elif L.cloc == C.at:
                        ok = len(ev) == 1 and ev[0].k == 'call' and ev[0].name == want[L.cloc] and gv(ev[0].obj) and [val(x) for x in ev[0].args] == [el]
                    else:
                        ok = len(ev) == 1 and ev[0].k == 'call' and ev[0].name == want[L.cloc] and ev[0].obj == el and \
                            (not join or (len(ev[0].args) == 1 and gv(val(ev[0].args[0]))))
                    verdict_p(rep, st, p, ok, k + ':each', 'each is %s exactly once%s' % ('contributed' if join else 'withdrawn', '' if ok else ' (%s)' % describe(ev)), where)
                if not join and wrote_g is not None:
                    rep.bad(name + ':early', 'the graph is forgotten before everything has been withdrawn', where)
                if join and wrote_g is None and same_graph(C, st, graph) is not True and any(deld(x.obj) == ld(C.g) for p in L.paths for x in events(p.trace, 'call')):
                    verdict(rep, st, False, name + ':late', 'everything is contributed to the graph that is joined', where)
            elif e.k == 'wr' and e.obj == C.g:
                wrote_g = val(e.args[0])
            elif e.k == 'wr' and e.obj == C.count:
                wrote_n = val(e.args[0])
            else:
                verdict(rep, st, False, name + ':other', 'nothing else happens (%s)' % describe([e]), sm.at(e))
        for l in want:
            n = seen.get(l, 0)
            if n == 0:
                em = any(a[0] == 'emptyc' and s and deld(a[1]) == ld(l) for a, s in st.facts.items())
                verdict(rep, st, em, '%s:%s:missing' % (name, l[2]), 'all of it is %s' % ('contributed' if join else 'withdrawn'), sm.where)
            else:
                verdict(rep, st, n == 1, '%s:%s:once' % (name, l[2]), 'all of it is %s once' % ('contributed' if join else 'withdrawn'), sm.where)
        samegraph = same_graph(C, st, graph)
        if join:
            ok = wrote_g == graph or (wrote_g is None and samegraph is True)
            verdict(rep, st, ok, name + ':member', 'after joining the coupled model forwards to that graph', sm.where)
            if C.count is not None:
                old = ld(C.count)
                d = sub(deld(wrote_n), old) if wrote_n is not None else None
                if samegraph is True:
                    verdict(rep, st, d == num(1), name + ':count', 'joining again is counted', sm.where)
                elif samegraph is False:
                    z = wrote_n == num(1) or (d == num(1))
                    verdict(rep, st, z, name + ':count', 'the first instance is counted as one', sm.where)
                else:
                    verdict(rep, st, d == num(1), name + ':count', 'instances are counted', sm.where)
        elif C.count is not None:
            old = [x for a in st.facts for x in subterms(a, lambda x: x[0] == 'ld' and x[1] == C.count)]
            old = old[0] if old else ('ld', C.count, 0)
            z = less(st.facts, old)
            if z == 'dead':
                continue
            if z is True:
                verdict(rep, st, wrote_g == NULL, name + ':member', 'after the last instance has left nothing is forwarded', sm.where)
            elif z is False:
                d = sub(deld(wrote_n), deld(old)) if wrote_n is not None else None
                verdict(rep, st, wrote_g is None and d == num(-1), name + ':member', 'while an instance remains changes are forwarded', sm.where)
            else:
                verdict(rep, st, False, name + ':member', 'the coupled model leaves the graph with its last instance', sm.where)
        else:
            rep.und(name + ':member', 'no count of instances')
