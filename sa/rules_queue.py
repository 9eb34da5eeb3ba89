"""Q01-Q02: the priority queue of the simulator.

The sifting loops are read as steps of a hole moving along a path of the heap.
Each continuing path and each exit is evaluated on all finite cases of
(position of the children against the size) x (weak orders of the priorities
involved), which is an exact finite abstraction of what the loop looks at."""
from rulelib import *
from rules_graph import guard
from terms import get, sub, add, num, scale, to_poly, isnum, idiv, mul
from itertools import product

TH = ('this',)


class Names:
    def __init__(self, cx):
        self.p = p = cx.prog('core')
        r = rec(p, 'adevs::Schedule')
        ts = {f['n']: p.t(f['t']) for f in r['f']}
        hp = [n for n, t in ts.items() if t.rstrip().endswith('*')]
        if len(hp) != 1:
            raise Undecided('the queue keeps its entries in another form')
        self.heap = ('f', TH, hp[0])
        un = [n for n, t in ts.items() if t in ('unsigned int', 'unsigned long', 'int', 'long', 'size_t', 'std::size_t')]
        self.size = None
        for f in need(p, 'adevs::Schedule', 'getSize'):
            sm = cx.summary('core', f, 'plain')
            for st in sm.states:
                if st.out and st.out[0] == 'ret':
                    v = deld(st.out[1])
                    if v[0] == 'ld' and v[1][0] == 'f' and v[1][2] in un:
                        self.size = v[1]
        if self.size is None:
            raise Undecided('the size of the queue is not recognised')
        cap = [n for n in un if n != self.size[2]]
        if len(cap) != 1:
            raise Undecided('the capacity of the queue is not recognised')
        self.cap = ('f', TH, cap[0])
        el = p.t([f['t'] for f in r['f'] if f['n'] == hp[0]][0]).rstrip('* ')
        er = None
        for b in p.recb:
            for x in p.recb[b]:
                if x['n'] == el or x['n'].startswith('adevs::Schedule') and x['n'].split('::')[-1] == el.split('::')[-1]:
                    er = x
        if er is None:
            raise Undecided('the entries of the queue are not recognised')
        self.elem = er
        fs = {f['n']: p.t(f['t']) for f in er['f']}
        it = [n for n, t in fs.items() if t.rstrip().endswith('*')]
        pr = [n for n in fs if n not in it]
        if len(it) != 1 or len(pr) != 1:
            raise Undecided('the entries of the queue are not recognised')
        self.item, self.prio = it[0], pr[0]
        ar = rec(p, 'adevs::Atomic')
        ai = [f['n'] for f in ar['f'] if p.t(f['t']) in ('unsigned int', 'unsigned long', 'int', 'long')]
        if len(ai) != 1:
            raise Undecided('the position recorded by a model is not recognised')
        self.qi = ai[0]
        self.N = ld(self.size)
        self.K = ld(self.cap)

    def slot(self, loc, base):
        """(index, field) of a location in the heap at base"""
        if loc[0] != 'f' or loc[2] not in (self.item, self.prio):
            return None
        b = loc[1]
        if b[0] == 'padd' and b[1] == base:
            return b[2], loc[2]
        if b == base:
            return num(0), loc[2]
        return None

    def at(self, base, i, f):
        p = base if i == num(0) else ('padd', base, i)
        return ld(('f', p, f))


# ------------------------------------------------------------------ one-direction intervals
def iv_truth(atom, sign, lin, lo, hi):
    """truth of a polynomial literal; lin(d) gives (k, c) with d = k*D + c, D an integer in [lo, hi]"""
    if atom[0] not in ('pos', 'ipos', 'zero'):
        return 'other'
    r = lin(atom[1])
    if r is None:
        return 'other'
    k, c = r
    if k == 0:
        v = (c == 0) if atom[0] == 'zero' else c > 0
        return v == sign
    if atom[0] == 'zero':
        root = -c / k
        if root.denominator != 1 or (lo is not None and root < lo) or (hi is not None and root > hi):
            return (not sign)
        if lo is not None and lo == hi:
            return sign
        return None
    ends = [None if x is None else k * x + c for x in (lo, hi)]
    mn, mx = (ends[0], ends[1]) if k > 0 else (ends[1], ends[0])
    if mn is not None and mn > 0:
        return sign
    if mx is not None and mx <= 0:
        return not sign
    return None


def linear(D):
    """linear(D)(d): d as k*D + c"""
    pd = {m: c for m, c in to_poly(D).items() if m != ()}
    dc = to_poly(D).get((), 0)
    m0 = sorted(pd, key=repr)[0]

    def f(d):
        q = to_poly(d)
        k = q.get(m0, 0) / pd[m0]
        r = to_poly(sub(d, scale(D, k)))
        if any(m != () for m in r):
            return None
        return k, r.get((), 0)
    return f


def order_truth(atom, sign, rank):
    """truth of a comparison under a weak order of terms"""
    if atom[0] == 'lt' and atom[1] in rank and atom[2] in rank:
        return (rank[atom[1]] < rank[atom[2]]) == sign
    if atom[0] == 'eq' and atom[1] in rank and atom[2] in rank:
        return (rank[atom[1]] == rank[atom[2]]) == sign
    return 'other'


def weak_orders(ts):
    seen = set()
    for r in product(range(len(ts)), repeat=len(ts)):
        if set(r) == set(range(len(set(r)))) and r not in seen:
            seen.add(r)
            yield dict(zip(ts, r))


def mentions(t, x):
    return contains(t, lambda y: y == x)


# ------------------------------------------------------------------ sifting loops
class Sift:
    """a loop that moves entries along a path of the heap"""
    def __init__(self, Q, L, base):
        self.Q, self.L, self.base = Q, L, base
        self.why = None
        self.dir = None
        self.bad = []
        self.read()

    def no(self, why):
        self.why = why

    def read(self):
        Q, L = self.Q, self.L
        if not L.regular or not L.paths:
            return self.no('loop not understood')
        # the position: the local whose value indexes the entries written
        cand = []
        for loc, (init, term, ups) in L.updates.items():
            if loc[0] == 'v' and isinstance(term, tuple) and term[0] == 'phi':
                w = [Q.slot(deldl(e.obj), self.base) for p in L.paths for e in p.trace if e.k == 'wr']
                if any(s is not None and s[0] == deld(term) for s in w):
                    cand.append((loc, init, term, ups))
        if len(cand) != 1:
            return self.no('position not recognised')
        loc, init, term, ups = cand[0]
        self.start, self.pos = deld(init), deld(term)
        self.derived(loc, ups)
        upd = {}
        for p, v in ups:
            upd[id(p)] = self.n_(deld(v)) if v is not None else None
        kinds = set()
        self.steps = []
        for p in L.paths:
            s = upd.get(id(p))
            if s is None:
                return self.no('step not recognised')
            two = scale(self.pos, 2)
            if s == idiv(self.pos, num(2)):
                kinds.add('up')
            elif s in (two, add(two, num(1))):
                kinds.add('down')
            else:
                return self.no('step not recognised')
            self.steps.append((p, s))
        if len(kinds) != 1:
            return self.no('direction not recognised')
        self.dir = kinds.pop()

    def derived(self, loc, ups):
        """other locals that keep a fixed relation to the position"""
        L = self.L
        self.sub = {}
        mine = [deld(v) if v is not None else None for _, v in ups]
        if any(v is None for v in mine):
            return
        for l2, (init, term, us) in L.updates.items():
            if l2 == loc or l2[0] != 'v' or not isinstance(term, tuple) or term[0] != 'phi' or len(us) != len(mine):
                continue
            vs = [deld(v) if v is not None else None for _, v in us]
            for f in (lambda x: idiv(x, num(2)), lambda x: scale(x, 2), lambda x: add(scale(x, 2), num(1))):
                t = f(self.pos)
                fix = lambda x: subst(x, lambda y: t if y == deld(term) else None)
                if deld(init) == f(self.start) and all(v is not None and fix(v) == f(fix(m)) for v, m in zip(vs, mine)):
                    self.sub[deld(term)] = t
                    break

    def n_(self, t):
        t = subst(t, lambda y: self.sub.get(y)) if self.sub else t
        if self.dir == 'down':
            # the entry being moved down still stands at its place in the first round; after that what was moved up from there
            t = subst(t, lambda y: HOLE if y[0] == 'phi' and len(y) == 3 and y[1] == self.L.id and isinstance(y[2], tuple)
                      and self.Q.slot(deldl(y[2]), self.base) == (self.pos, self.Q.prio) else None)
        return t

    def moves(self):
        """(path, source, problems) of every step"""
        Q = self.Q
        for p, s in self.steps:
            want = {('s', self.pos, Q.item): Q.at(self.base, s, Q.item), ('s', self.pos, Q.prio): Q.at(self.base, s, Q.prio)}
            got, qi, extra = {}, [], []
            for e in p.trace:
                if e.k == 'wr':
                    o = self.n_(deldl(e.obj))
                    sl = Q.slot(o, self.base)
                    if sl is not None:
                        got[('s',) + sl] = self.n_(deld(val(e.args[0])))
                        continue
                    if o[0] == 'f' and o[2] == Q.qi:
                        qi.append((o[1], self.n_(deld(val(e.args[0])))))
                        continue
                    if o[0] in ('v', 't', 'ref'):
                        continue
                extra.append(e)
            yield p, s, want, got, qi, extra

    def prior(self, facts_list):
        """the priority that is compared with the entries"""
        Q = self.Q
        c = set()
        for f in facts_list:
            for a in f:
                if a[0] in ('lt', 'eq'):
                    xs = [self.n_(deld(a[1])), self.n_(deld(a[2]))]
                    for x, y in (xs, xs[::-1]):
                        if x == HOLE and self.is_entry(y) or y == HOLE:
                            continue
                        if (x == HOLE or self.is_entry(x)) and not self.is_entry(y):
                            c.add(y)
        return c.pop() if len(c) == 1 else None

    def is_entry(self, t):
        return t[0] == 'ld' and (Q_slot(self.Q, t[1], self.base) is not None) and mentions(t, self.pos)


HOLE = ('hole',)


def Q_slot(Q, loc, base):
    return Q.slot(loc, base)


def deldl(loc):
    t = deld(('ld', loc))
    return t[1]


def eval_cases(S, facts, P, n, strictroot=None):
    """yields (case, certain): the finite cases a path is consistent with.
    case is a dict; certain tells that all facts about this loop were evaluated"""
    Q = S.Q
    two = scale(S.pos, 2)
    if S.dir == 'down':
        a, b = Q.at(S.base, two, Q.prio), Q.at(S.base, add(two, num(1)), Q.prio)
        lin = linear(sub(n, two))
        cats = [('none', None, -3), ('none', -2, -2), ('none', -1, -1), ('one', 0, 0), ('two', 1, 1), ('two', 2, 2), ('two', 3, None)]
        terms = [a, b, P]
        if any(mentions(S.n_(deld(x)), HOLE) for x in facts):
            terms.append(HOLE)
    else:
        a, b = Q.at(S.base, idiv(S.pos, num(2)), Q.prio), None
        lin = linear(S.pos)
        cats = [('root', 1, 1), ('inner', 2, 2), ('inner', 3, 3), ('inner', 4, None)]
        terms = [a, P]
    fs = [(S.n_(deld(x)), s) for x, s in facts.items()]
    for name, lo, hi in cats:
        for rank in weak_orders(terms):
            if S.dir == 'up' and name == 'root' and not rank[a] < rank[P]:
                continue
            if HOLE in terms and any(rank[HOLE] > rank[t] for t in terms):
                continue
            good, certain = True, True
            for x, s in fs:
                t = iv_truth(x, s, lin, lo, hi)
                if t == 'other':
                    t = order_truth(x, s, rank)
                if t == 'other':
                    if x[0] in ('complete', 'done'):
                        continue
                    if mentions(x, S.pos) and x[0] not in ('nn',):
                        # a comparison of the same loop that is not understood
                        certain = False
                    continue
                if t is False:
                    good = False
                    break
                if t is None:
                    certain = False
            if good:
                yield {'cat': name, 'rank': rank, 'a': a, 'b': b, 'P': P}, certain


def loop_facts(facts, S):
    return {x: s for x, s in facts.items() if mentions(S.n_(deld(x)), S.pos) or mentions(S.n_(deld(x)), HOLE)}


def check_sift(rep, rep2, S, n, exits, where, strict=False, key='queue'):
    """obligations of a sifting loop; rep gets those about order, rep2 those about positions and bounds"""
    Q = S.Q
    allf = [p.facts for p in S.L.paths] + [q.facts for q in S.L.exits] + [loop_facts(f, S) for f in exits]
    P = S.prior(allf)
    if P is None:
        rep.und(key + ':' + S.dir, 'the priority a model is moved by is not recognised')
        return None
    up = S.dir == 'up'
    for p, s, want, got, qi, extra in S.moves():
        clean = not extra
        for k, w in want.items():
            g = got.get(k)
            what = 'entries are moved as a whole when the queue is reordered'
            (rep.ok('%s:%s:move' % (key, S.dir)) if g == w else
             rep.check(False if clean and not g or g is not None and not vague_but(g, S.pos) else None, '%s:%s:move' % (key, S.dir), what, where))
        item = Q.at(S.base, s, Q.item)
        item2 = Q.at(S.base, S.pos, Q.item)
        ok = any(o in (item, item2) and v == S.pos for o, v in qi)
        rep2.check(True if ok else (False if clean else None), '%s:%s:position' % (key, S.dir), 'a model that is moved in the queue records its new position', where)
        others = [1 for o, v in qi if o not in (item, item2)]
        if others:
            rep2.und('%s:%s:position' % (key, S.dir), 'another position is recorded')
        for c, sure in eval_cases(S, p.facts, P, n):
            r, a, b = c['rank'], c['a'], c['b']
            if up:
                ok = c['cat'] == 'inner' and r[P] <= r[a]
                rep.check(True if ok else (False if sure else None), key + ':up:step', 'an earlier model is moved up past a later one only, and never past the front', where)
                continue
            if c['cat'] == 'none' or c['cat'] == 'one' and s != scale(S.pos, 2):
                rep2.check(False if sure else None, key + ':down:bounds', 'only entries that the queue holds are moved up', where)
                continue
            sib = b if s == scale(S.pos, 2) else a
            mine = a if s == scale(S.pos, 2) else b
            ok = r[mine] <= r[P] and (c['cat'] == 'one' or r[mine] <= r[sib])
            rep.check(True if ok else (False if sure else None), key + ':down:step', 'the earliest of the entries below is moved up, if it is earlier than the model', where)
    for f in exits:
        lf = loop_facts(f, S)
        for c, sure in eval_cases(S, lf, P, n):
            r, a, b = c['rank'], c['a'], c['b']
            if up:
                ok = c['cat'] == 'root' or (r[a] <= r[P] if not strict else False)
                if strict and c['cat'] == 'inner' and r[a] < r[P]:
                    ok = True       # cannot be: no entry is earlier than the front
                rep.check(True if ok else (False if sure else None), key + ':up:stop' + (':front' if strict else ''),
                          'a model moves up until what is above it is not later' if not strict else 'a model that leaves the queue is moved to the front', where)
            else:
                ok = c['cat'] == 'none' or (r[P] <= r[a] and (c['cat'] == 'one' or r[P] <= r[b]))
                rep.check(True if ok else (False if sure else None), key + ':down:stop', 'a model moves down until nothing below it is earlier', where)
    if not up:
        # the right entry is only looked at when there is one
        b = Q.at(S.base, add(scale(S.pos, 2), num(1)), Q.prio)
        a = Q.at(S.base, scale(S.pos, 2), Q.prio)
        for f in [p.facts for p in S.L.paths] + [q.facts for q in S.L.exits] + [loop_facts(f, S) for f in exits]:
            for c, sure in eval_cases(S, loop_facts(f, S), P, n):
                rd = [x for x in f if x[0] in ('lt', 'eq')]
                for t, need_ in ((a, ('one', 'two')), (b, ('two',))):
                    if any(mentions(S.n_(deld(x)), t) for x in rd):
                        rep2.check(True if c['cat'] in need_ else (False if sure else None), key + ':down:reads', 'entries are looked at only where the queue holds some', where)
    return P


def vague_but(t, pos):
    return contains(t, lambda x: len(x) > 0 and x[0] in VAGUE and x != pos)


# ------------------------------------------------------------------ schedule()
class Trace:
    """what one path of a queue operation does, in terms of the heap"""
    def __init__(self, Q, st):
        self.Q, self.st = Q, st
        self.base = ld(Q.heap)
        self.n, self.k = Q.N, Q.K
        self.sifts, self.w, self.qi, self.odd = [], {}, [], []
        self.cap = Q.K
        self.capat = []          # (index accessed, capacity then)
        self.new, self.copied, self.freed = None, None, 0
        self.order = []
        for e in st.trace:
            self.step(e)

    def step(self, e):
        Q = self.Q
        if e.k == 'loop':
            S = Sift(Q, e.x, self.base)
            if S.dir:
                S.n = self.n
                S.before = dict(self.w)
                self.sifts.append(S)
                self.order.append(('sift', S))
                self.capat.append((S.start, self.cap))
                # the hole moves: what was written to it before does not count
                self.w = {k: v for k, v in self.w.items() if k[0] != S.start}
                return
            c = copy_loop(Q, e.x, self.base)
            if c is not None:
                self.copied = c
                return
            self.odd.append(e)
            return
        if e.k == 'new':
            self.odd.append(e) if self.new else None
            self.new = e
            return
        if e.k in ('delete', 'del', 'free'):
            v = deld(val(e.args[0])) if e.args else None
            self.freed += 1 if (v == ld(Q.heap) or e.obj is not None and deldl(e.obj) == Q.heap) else 0
            self.order.append(('free', e))
            return
        if e.k == 'wr':
            o, v = deldl(e.obj), deld(val(e.args[0]))
            if o == Q.size:
                self.n = v
                self.order.append(('size', v))
                return
            if o == Q.cap:
                self.cap = v
                return
            if o == Q.heap:
                self.base = v
                self.order.append(('heap', v))
                return
            s = Q.slot(o, self.base)
            if s is not None:
                self.w[s] = v
                self.capat.append((s[0], self.cap))
                return
            if Q.slot(o, ld(Q.heap)) is not None and self.base != ld(Q.heap):
                self.odd.append(e)
                return
            if o[0] == 'f' and o[2] == Q.qi:
                self.qi.append((o[1], v))
                return
            if o[0] in ('v', 't', 'ref'):
                return
        if e.k in ('assume', 'note'):
            return
        self.odd.append(e)


def copy_loop(Q, L, base):
    """(first, end, destination) of a loop that copies entries to the same place elsewhere"""
    if L.kind != 'index' or not L.regular or not L.range or len(L.paths) != 1 or L.exits:
        return None
    got = {}
    dst = None
    for e in L.paths[0].trace:
        if e.k != 'wr':
            return None
        o, v = deldl(e.obj), deld(val(e.args[0]))
        if o[0] in ('v', 't', 'ref'):
            continue
        if o[0] != 'f' or o[1][0] != 'padd' or v[0] != 'ld':
            return None
        dst, i = o[1][1], o[1][2]
        s = Q.slot(v[1], base)
        if s is None or s[0] != i or s[1] != o[2]:
            return None
        got[o[2]] = True
    if set(got) != {Q.item, Q.prio}:
        return ('part', dst, set(got))
    return (deld(L.range[0]), deld(L.range[1]), dst)


def orders(Q, st, m, P):
    """the cases of a call of schedule() this path is consistent with"""
    q = ld(fld(m, Q.qi))
    here = Q.at(ld(Q.heap), q, Q.prio)
    INF = ('c', 'inf')
    f = {deld(a): s for a, s in st.facts.items()}
    for zero in (True, False):
        d = f.get(('zero', q))
        if d is None:
            d2 = f.get(('pos', q), f.get(('ipos', q)))
            d = None if d2 is None else not d2
        if d is not None and d != zero:
            continue
        # P never exceeds inf; entries in the queue are below it
        for pr in (0, 1, 2, 3):
            # 0: earlier than the entry, 1: same, 2: later, 3: infinite
            if zero and pr in (0, 1):
                continue
            rank = {here: 10, P: {0: 9, 1: 10, 2: 11, 3: 20}[pr], INF: 20}
            ok = True
            for a, s in f.items():
                if zero and mentions(a, here):
                    continue
                t = order_truth(a, s, rank)
                if t is False:
                    ok = False
            if not ok:
                continue
            yield zero, pr


def Q_rule(cx, rep, rep2):
    Q = Names(cx)
    p = Q.p
    for f in need(p, 'adevs::Schedule', 'schedule'):
        guard(rep, 'schedule', lambda: q_schedule(cx, Q, rep, rep2, f))
    for f in p.find('adevs::Schedule', 'removeMinimum'):
        guard(rep, 'removeMinimum', lambda: q_removemin(cx, Q, rep, rep2, f))
    for name, fieldn in (('minPriority', Q.prio), ('getMinimum', Q.item)):
        for f in need(p, 'adevs::Schedule', name):
            sm = cx.summary('core', f, 'plain').use(rep)
            for st in sm.normal():
                v = deld(st.out[1]) if st.out else UNDEF
                ok = v == Q.at(ld(Q.heap), num(1), fieldn)
                emp = any(a in (('zero', Q.N),) and s for a, s in ((deld(a), s) for a, s in st.facts.items()))
                if not ok and emp:
                    ok = v == (('c', 'inf') if fieldn == Q.prio else NULL)
                rep.check(True if ok else (None if st.imp or vague(v) else False), name, 'the front of the queue is reported', sm.where)
    for f in p.find('adevs::Schedule', 'empty'):
        sm = cx.summary('core', f, 'plain').use(rep)
        for st in sm.normal():
            v = deld(st.out[1]) if st.out else UNDEF
            z = {deld(a): s for a, s in st.facts.items()}.get(('zero', Q.N))
            if v in (TRUE, FALSE):
                lin = linear(Q.N)
                for n in (0, 1, 2):
                    t = [iv_truth(deld(a), s, lin, n, n) for a, s in st.facts.items()]
                    if False in t:
                        continue
                    rep.check((v == TRUE) == (n == 0) if None not in t else None, 'empty', 'the queue is reported empty exactly when it holds nothing', sm.where)
            elif z is None or v[0] != 'b':
                rep.und('empty', 'form not recognised')
            else:
                rep.check(v[1] == z, 'empty', 'the queue is reported empty exactly when it holds nothing', sm.where)
    guard(rep, 'imminent', lambda: q_imminent(cx, Q, rep, rep2))
    guard(rep2, 'construction', lambda: q_ctor(cx, Q, rep, rep2))
    for f in [x for x in p.find('adevs::Schedule', '~Schedule') if x.get('body') is not None] or [None]:
        if f is None:
            rep2.bad('destroy', 'fails: the storage of the queue is released', '')
            continue
        sm = cx.summary('core', f, 'plain').use(rep2)
        for st in sm.states:
            T = Trace(Q, st)
            rep2.check(True if T.freed == 1 else (None if T.odd else False), 'destroy', 'the storage of the queue is released exactly once', sm.where)
            arr = [e for e in st.trace if e.k in ('delete', 'del', 'free')]
            for e in arr:
                if 'arr' in (getattr(e, 'x', None) or {}) if isinstance(getattr(e, 'x', None), dict) else False:
                    rep2.check(e.x['arr'], 'destroy:array', 'array storage is released as an array', sm.where)


def infeasible(Q, st, q):
    f = {deld(a): s for a, s in st.facts.items()}
    return f.get(('zero', q)) is False and f.get(('zero', Q.N)) is True


def q_schedule(cx, Q, rep, rep2, f):
    sm = cx.summary('core', f, 'plain').use(rep)
    rep2.functions.update(rep.functions)
    ps = [('p', x['n'], i) for i, x in enumerate(f['params'])]
    m = [x for x, y in zip(ps, f['params']) if Q.p.t(y['t']).rstrip().endswith('*')][0]
    P = [x for x in ps if x != m][0]
    q = ld(fld(m, Q.qi))
    W = sm.where
    groups = {}
    parsed = []
    for st in sm.normal():
        if infeasible(Q, st, q):
            continue
        T = Trace(Q, st)
        parsed.append((st, T))
        for S in T.sifts:
            pr = S.prior([x.facts for x in S.L.paths] + [loop_facts(st.facts, S)])
            groups.setdefault((S.L.id, repr(pr)), []).append((S, st, T))
    for lid, xs in groups.items():
        S, st, T = xs[0]
        # the removal needs the model to reach the front
        strict = S.dir == 'up' and any(any(pr == 3 for z, pr in orders(Q, s2, m, P) if not z) for _, s2, _ in xs) and \
            not any(pr != 3 for _, s2, _ in xs for z, pr in orders(Q, s2, m, P))
        check_sift(rep, rep2, S, S.n, [s2.facts for _, s2, _ in xs], Q.p.where(S.L.line), strict)
    for st, T in parsed:
        cases = list(orders(Q, st, m, P))
        if not cases:
            continue
        firm = not T.odd and not st.imp
        if T.odd:
            rep.und('schedule', 'not understood: %r' % (T.odd[0],))
            rep2.und('schedule', 'not understood: %r' % (T.odd[0],))
            continue
        nothing = not T.sifts and not T.w and not T.qi and T.n == Q.N
        fl = {deld(a): s for a, s in st.facts.items()}
        for zero, pr in cases:
            if zero and pr == 3:
                rep.check(nothing, 'schedule:absent', 'a model that is not in the queue is not put there at infinity', W)
            elif zero:
                insert(Q, rep, rep2, sm, st, T, m, P, W)
            elif pr == 3:
                removal(Q, rep, rep2, sm, st, T, m, P, W)
            else:
                if nothing:
                    rep.check(pr == 1, 'schedule:move', 'a model whose time changes is moved', W)
                    continue
                rep.check(T.n == Q.N, 'schedule:move:size', 'moving a model does not change the number of entries', W)
                if len(T.sifts) != 1:
                    rep.check(None if T.sifts else False, 'schedule:move:place', 'a model whose time changes is moved to its place', W)
                    continue
                S = T.sifts[0]
                PP = S.prior([p.facts for p in S.L.paths] + [loop_facts(st.facts, S)])
                rep.check(S.start == q, 'schedule:move:start', 'a model is moved from where it is', W)
                rep.check(True if PP == P else (None if PP is None else False), 'schedule:move:by', 'a model is moved by its new time', W)
                ok = pr == 1 or (S.dir == 'up') == (pr == 0)
                rep.check(ok, 'schedule:move:direction', 'a model moves up when its time becomes earlier and down when it becomes later', W)
                placed(Q, rep, rep2, T, S.pos, m, P, 'schedule:move', W)
    return


def placed(Q, rep, rep2, T, at, item, prio, key, W, more=()):
    g = T.w.get((at, Q.item))
    rep.check(True if g == item else (False if g is None or not vague_but(g, at) else None), key + ':item', 'the model is stored at its place in the queue', W)
    g = T.w.get((at, Q.prio))
    rep.check(True if g == prio else (False if g is None or not vague_but(g, at) else None), key + ':time', 'the time given is stored at the model\'s place in the queue', W)
    r = {item, Q.at(T.base, at, Q.item)}
    last = [v for o, v in T.qi if o in r]
    rep2.check(True if last and last[-1] == at else (False if not last or not vague_but(last[-1], at) else None), key + ':position',
               'a model records the place where it is stored', W)
    for (i, fn), v in T.w.items():
        if i == at or i in more:
            continue
        # beyond the end of the queue nothing matters
        d = sub(i, T.n)
        if isnum(d) and d[1] > 0:
            continue
        rep.check(None, key + ':others', 'other entries stay as they are', W)


def insert(Q, rep, rep2, sm, st, T, m, P, W):
    rep.check(T.n == add(Q.N, num(1)), 'schedule:insert:size', 'an entry is added for a model that joins the queue', W)
    if len(T.sifts) != 1:
        rep.check(None if T.sifts else False, 'schedule:insert:place', 'a model that joins the queue is moved to its place', W)
        return
    S = T.sifts[0]
    PP = S.prior([p.facts for p in S.L.paths] + [loop_facts(st.facts, S)])
    rep.check(S.dir == 'up', 'schedule:insert:direction', 'a new entry moves up from the end', W)
    rep.check(S.start == add(Q.N, num(1)), 'schedule:insert:start', 'a new entry starts at the end of the queue', W)
    rep.check(True if PP == P else (None if PP is None else False), 'schedule:insert:by', 'a new entry is moved by its time', W)
    placed(Q, rep, rep2, T, S.pos, m, P, 'schedule:insert', W)
    room(Q, rep2, st, T, W)


def room(Q, rep, st, T, W):
    """every access lies within the storage, and room for the next entry remains"""
    D = sub(Q.K, Q.N)
    lin = linear(D)
    lo, hi = 1, None
    f = {deld(a): s for a, s in st.facts.items()}
    # tighten D by the facts of the path
    for cand in range(1, 4):
        for a, s in f.items():
            t = iv_truth(a, s, lin, lo, lo)
            if t is False:
                lo += 1
                break
    for h in (1, 2, 3):
        if any(iv_truth(a, s, lin, h + 1, None) is False for a, s in f.items()):
            hi = h
            break
    if hi is not None and lo > hi:
        return

    def least(d):
        """lower bound of a term over D in [lo, hi], capacity >= 2"""
        d = subst(d, lambda x: sub(Q.K, ('D',)) if x == Q.N else None)
        q = to_poly(d)
        tot = 0
        for mm, c in q.items():
            if mm == ():
                tot += c
            elif mm == ((('D',), 1),):
                if c < 0 and hi is None:
                    return None
                tot += c * (lo if c > 0 else hi)
            elif mm == ((Q.K, 1),):
                if c < 0:
                    return None
                tot += c * 2
            else:
                return None
        return tot
    def most_neg(d):
        x = least(scale(d, -1))
        return x is not None and x > 0
    b = least(sub(T.cap, T.n))
    grown = T.new is not None
    if grown:
        ext = deld(val(T.new.args[0])) if T.new.args else None
        newv = [x for k, x in T.order if k == 'heap']
        rep.check(bool(newv), 'grow:used', 'the enlarged storage is used', W)
        rep.check(T.freed == 1, 'grow:release', 'the old storage is released exactly once when the queue grows', W)
        if T.copied is None or T.copied[0] == 'part':
            rep.check(False if T.copied is not None or not T.odd else None, 'grow:copy', 'every entry is copied as a whole when the queue grows', W)
        else:
            a, e_, dst = T.copied
            rep.check(a == num(0), 'grow:copy:first', 'the sentinel is kept when the queue grows', W)
            c = least(sub(e_, add(Q.N, num(1))))
            rep.check(True if c is not None and c >= 0 else (False if c is not None and hi is not None else None), 'grow:copy:last', 'every entry is kept when the queue grows', W)
            c2 = least(sub(ext, e_)) if ext is not None else None
            rep.check(True if c2 is not None and c2 >= 0 else (False if ext is not None and most_neg(sub(ext, e_)) else None), 'grow:copy:fits', 'copying stays within the enlarged storage', W)
            c3 = least(sub(Q.K, e_))
            rep.check(True if c3 is not None and c3 >= 0 else (False if most_neg(sub(Q.K, e_)) else None), 'grow:copy:source', 'copying stays within the old storage', W)
            rep.check(not newv or dst == newv[-1], 'grow:copy:to', 'entries are copied to the storage that is used then', W)
        if ext is not None:
            c = least(sub(ext, T.cap))
            rep.check(True if c is not None and c >= 0 else (False if most_neg(sub(ext, T.cap)) else None), 'grow:capacity', 'the recorded capacity does not exceed the storage', W)
    rep.check(True if b is not None and b >= 1 else (False if b is not None else (False if not grown and T.cap == Q.K and hi is None and lo <= 1 else None)),
              'grow:room', 'the storage has room for every entry of the queue', W)
    for i, cap in T.capat:
        if contains(i, lambda x: x[0] in ('phi', 'aphi')):
            continue
        c = least(sub(cap, add(i, num(1))))
        rep.check(True if c is not None and c >= 0 else (False if c is not None else None), 'grow:access', 'the queue is enlarged before the place beyond its end is used', W)


def removal(Q, rep, rep2, sm, st, T, m, P, W):
    """the model is moved to the front and the front is removed"""
    fl = {deld(a): s for a, s in st.facts.items()}
    ups = [S for S in T.sifts if S.dir == 'up']
    if T.n == Q.N:
        rep.check(False if not T.odd else None, 'schedule:remove', 'a model scheduled at infinity leaves the queue', W)
        return
    if len(T.sifts) == 1 and T.n == sub(Q.N, num(1)) and not T.odd:
        # the hole is filled with the last entry at once: that has to find its place in either direction
        S = T.sifts[0]
        q = ld(fld(m, Q.qi))
        PP = S.prior([p.facts for p in S.L.paths] + [loop_facts(st.facts, S)])
        near = lambda y: y[0] == 'idiv' or y == scale(q, 2)
        other = [a for a, s in fl.items() if contains(a, lambda y: y == q) and (a[0] in ('zero', 'eq') or contains(a, near) and contains(a, lambda y: y[0] == 'ld'))]
        at1 = [a for a in other if a[0] in ('zero', 'eq') and fl[a]]
        if S.start == q and PP == Q.at(ld(Q.heap), Q.N, Q.prio) and not [a for a in other if a[0] not in ('zero', 'eq')] and not at1:
            rep.bad('schedule:remove:both', 'fails: the entry that fills the place of one that left is moved towards the front or the end as its time requires (only %s)' % (
                'towards the end' if S.dir == 'down' else 'towards the front'), W)
            return
    if len(ups) != 1 or T.sifts[0] is not ups[0]:
        rep.und('schedule:remove', 'the removal is not recognised')
        rep2.und('schedule:remove', 'the removal is not recognised')
        return
    S = ups[0]
    q = ld(fld(m, Q.qi))
    PP = S.prior([p.facts for p in S.L.paths] + [loop_facts(st.facts, S)])
    rep.check(S.start == q, 'schedule:remove:start', 'a model leaves the queue from where it is', W)
    ok = PP == Q.at(ld(Q.heap), num(1), Q.prio) or PP == ('c', 'zero')
    rep.check(True if ok else (False if PP is not None and not vague(PP) else None), 'schedule:remove:front', 'a model that leaves is moved by the least time in the queue', W)
    # from here on the model is the front entry
    front(Q, rep, rep2, sm, st, T, m, 'schedule:remove', W, up=S)


def front(Q, rep, rep2, sm, st, T, m, key, W, up=None):
    fl = {deld(a): s for a, s in st.facts.items()}
    rep.check(T.n == sub(Q.N, num(1)), key + ':size', 'an entry that leaves the queue is not counted any more', W)
    if T.n != sub(Q.N, num(1)):
        return
    last = fl.get(('zero', sub(Q.N, num(1))))
    if last is None:
        lin = linear(Q.N)
        if any(iv_truth(a, s, lin, 2, None) is False for a, s in fl.items()):
            last = True
        elif any(iv_truth(a, s, lin, 1, 1) is False for a, s in fl.items()):
            last = False
    one = Q.at(ld(Q.heap), num(1), Q.item)
    first = {one} | ({m} if m is not None else set())
    if up is not None:
        first.add(Q.at(ld(Q.heap), up.pos, Q.item))
    z = [v for o, v in T.qi if o in first]
    rep2.check(True if z and z[-1] == num(0) else (False if not z or isnum(z[-1]) else (False if z[-1] == (up.pos if up else None) else None)), key + ':cleared',
               'a model that leaves the queue records that it has no place there', W)
    if last is True:
        g = T.w.get((num(1), Q.prio))
        rep.check(True if g == ('c', 'inf') else (False if g is None or not vague(g) else None), key + ':empty', 'the front of an empty queue is at infinity', W)
        return
    if last is None:
        rep.und(key, 'removing the last entry is not told apart')
        return
    downs = [S for S in T.sifts if S.dir == 'down']
    if len(downs) != 1:
        rep.check(None if T.sifts[1 if up else 0:] else False, key + ':fill', 'the place of an entry that leaves is filled', W)
        return
    S = downs[0]
    rep.check(S.start == num(1), key + ':hole', 'the place left by the front entry is filled', W)
    PP = S.prior([p.facts for p in S.L.paths] + [loop_facts(st.facts, S)])
    lastp, lasti = Q.at(ld(Q.heap), Q.N, Q.prio), Q.at(ld(Q.heap), Q.N, Q.item)
    rep.check(True if PP == lastp else (None if PP is None else False), key + ':fill:by', 'the last entry takes the place left', W)
    rep.check(S.n == sub(Q.N, num(1)), key + ':fill:size', 'the last entry is not compared with itself', W)
    T2w = {k: v for k, v in T.w.items() if k[0] not in (num(1),) and (up is None or k[0] != up.pos)}
    Tn = Bag()
    Tn.w, Tn.qi, Tn.n, Tn.base = T2w, T.qi, T.n, T.base
    placed(Q, rep, rep2, Tn, S.pos, lasti, lastp, key + ':fill', W)


class Bag:
    pass


def q_removemin(cx, Q, rep, rep2, f):
    sm = cx.summary('core', f, 'plain').use(rep)
    W = sm.where
    groups = {}
    parsed = []
    for st in sm.normal():
        T = Trace(Q, st)
        parsed.append((st, T))
        for S in T.sifts:
            groups.setdefault(S.L.id, []).append((S, st))
    for lid, xs in groups.items():
        S = xs[0][0]
        check_sift(rep, rep2, S, S.n, [s2.facts for _, s2 in xs], Q.p.where(S.L.line))
    for st, T in parsed:
        if T.odd:
            rep.und('remove', 'not understood: %r' % (T.odd[0],))
            continue
        fl = {deld(a): s for a, s in st.facts.items()}
        if fl.get(('zero', Q.N)) is True:
            rep.check(not T.w and not T.sifts and not T.qi and T.n == Q.N, 'remove:none', 'nothing is removed from an empty queue', W)
            continue
        lin = linear(Q.N)
        if T.n != Q.N and all(iv_truth(a, s, lin, 0, 0) is not False for a, s in fl.items()):
            rep.check(None if st.imp or any(iv_truth(a, s, lin, 0, 0) is None for a, s in fl.items() if mentions(a, Q.N)) else False, 'remove:none', 'nothing is removed from an empty queue', W)
            continue
        front(Q, rep, rep2, sm, st, T, None, 'remove', W)


def q_ctor(cx, Q, rep, rep2):
    p = Q.p
    for f in p.find('adevs::Schedule', 'Schedule'):
        if f.get('body') is None or f.get('del') or any('Schedule' in p.t(x['t']) for x in f['params']):
            continue
        sm = cx.summary('core', f, 'plain').use(rep2)
        W = sm.where
        for st in sm.normal():
            T = Trace(Q, st)
            if T.odd and not all(e.k in ('mut', 'wr') for e in T.odd):
                rep2.und('construction', 'not understood: %r' % (T.odd[0],))
                continue
            ext = deld(val(T.new.args[0])) if T.new is not None and T.new.args else None
            rep2.check(True if T.n == num(0) else False, 'construction:size', 'a new queue is empty', W)
            if ext is None:
                rep2.und('construction:storage', 'the storage is not recognised')
                continue
            d = sub(ext, T.cap)
            if isnum(d):
                ok = d[1] >= 0
            else:
                hi = upper(d, st.facts)
                ok = False if hi is not None and hi < 0 else None
            rep2.check(ok, 'construction:capacity', 'a new queue has the storage it records', W)
            v = T.w.get((num(0), Q.prio))
            rep2.check(True if v == ('c', 'sentinel') else (False if v is None or v[0] == 'c' else None), 'construction:sentinel', 'a new queue has its sentinel', W)
            lo = lower(T.cap, st.facts)
            rep2.check(True if lo is not None and lo >= 2 else (False if not vague(T.cap) and not st.imp else None), 'construction:room', 'a new queue has room for its sentinel and one entry', W)
    # entries start at infinity
    nm = Q.elem['n'].split('::')[-1]
    cs = [f for f in p.fn.values() if f.get('n') and f['n'].split('::')[-1] == nm and f['q'].endswith(nm + '::' + nm)]
    for f in cs:
        if f['n'].split('::')[-1] != Q.elem['n'].split('::')[-1] or f.get('params') or f.get('body') is None:
            continue
        sm = cx.summary('core', f, 'plain').use(rep2)
        for st in sm.normal():
            w = {deldl(e.obj): deld(val(e.args[0])) for e in st.trace if e.k == 'wr'}
            g = w.get(fld(TH, Q.prio))
            rep.check(True if g == ('c', 'inf') else (False if g is None or g[0] == 'c' else None), 'construction:infinity', 'the front of a new queue is at infinity', sm.where)
    for f in need(p, 'adevs::Atomic', 'Atomic'):
        if f.get('body') is None or f.get('params'):
            continue
        sm = cx.summary('core', f, 'plain').use(rep2)
        for st in sm.normal():
            w = {deldl(e.obj): deld(val(e.args[0])) for e in st.trace if e.k == 'wr'}
            g = w.get(fld(TH, Q.qi))
            rep2.check(True if g == num(0) else False, 'model:position', 'a new model is not in any queue', sm.where)


def upper(t, facts):
    """an upper bound of t from facts about it"""
    lin = linear(t)
    for h in range(-4, 4):
        if any(iv_truth(deld(a), s, lin, h + 1, None) is False for a, s in facts.items()):
            return h
    return None


def lower(t, facts):
    if isnum(t):
        return t[1]
    lin = linear(t)
    lo = 0
    for _ in range(4):
        if any(iv_truth(deld(a), s, lin, lo, lo) is False for a, s in facts.items()):
            lo += 1
        else:
            break
    return lo


def q_imminent(cx, Q, rep, rep2):
    p = Q.p
    fs = [f for f in need(p, 'adevs::Schedule', 'visitImminent') if f.get('body') is not None]
    pub = [f for f in fs if not f.get('params')]
    if len(pub) != 1:
        raise Undecided('the way imminent models are listed is not recognised')
    sm = cx.summary('core', pub[0], 'plain').use(rep)
    W = sm.where
    for st in sm.normal():
        calls = [e for e in st.trace if e.k == 'call']
        if len(calls) != 1 or any(e.k == 'loop' for e in st.trace):
            rep.und('imminent', 'the way imminent models are listed is not recognised')
            return
        c = calls[0]
        fn = [f for f in p.find('adevs::Schedule', c.name) if f.get('params')]
        if len(fn) != 1:
            rep.und('imminent', 'the way imminent models are listed is not recognised')
            return
        i = [j for j, x in enumerate(fn[0]['params']) if 'int' in p.t(x['t']) or 'long' in p.t(x['t'])]
        if len(i) != 1:
            rep.und('imminent', 'the way imminent models are listed is not recognised')
            return
        i = i[0]
        rep.check(deld(val(c.args[i])) == num(1), 'imminent:front', 'listing imminent models starts at the front', W)
        hs = cx.summary('core', fn[0], 'plain').use(rep)
        root = ('p', fn[0]['params'][i]['n'], i)
        # the list: what the helper appends to
        out = {deldl(e.obj) for s in hs.normal() for e in s.trace if e.k == 'mut' and e.name == 'push'}
        if len(out) != 1:
            rep.check(None if out else False, 'imminent:listed', 'imminent models are listed', hs.where)
            return
        O = out.pop()
        before = [e for e in st.trace[:st.trace.index(c)] if e.k in ('mut', 'wr') and deldl(e.obj) == O]
        local = O[0] != 'f'
        if not local:
            clean = any(e.k == 'mut' and e.name == 'clear' or e.k == 'wr' and val(e.args[0]) == EMPTY for e in before)
            rep.check(True if clean else False, 'imminent:fresh', 'a new list of imminent models is made each time', W)
            r = deld(st.out[1]) if st.out else UNDEF
            after = [e for e in st.trace[st.trace.index(c) + 1:] if e.k in ('mut', 'wr')]
            rep.check(True if contains(r, lambda x: x == O) and not after else None, 'imminent:returned', 'the list of imminent models is returned', W)
        for s in hs.normal():
            imminent_path(Q, rep, rep2, hs, s, root, O, fn[0], i)


def imminent_path(Q, rep, rep2, hs, st, root, O, fn, ai):
    base = ld(Q.heap)
    mn, me = Q.at(base, num(1), Q.prio), Q.at(base, root, Q.prio)
    lin = linear(sub(root, Q.N))
    W = hs.where
    pushes = [deld(val(e.args[0])) for e in st.trace if e.k == 'mut' and e.name == 'push' and deldl(e.obj) == O]
    calls = [deld(val(e.args[ai])) for e in st.trace if e.k == 'call' and e.name == fn['n'].split('::')[-1]]
    odd = [e for e in st.trace if e.k in ('loop', 'wr') or e.k == 'mut' and e.name != 'push']
    # below: the place holds an entry; beyond: it does not
    for cat, lo, hi in (('last', 0, 0), ('in', None, -1), ('out', 1, None)):
        for same in (True, False):
            rank = {mn: 0, me: 0 if same else 1}
            good, sure = True, not odd and not st.imp
            child = {}
            for a, s in st.facts.items():
                a = deld(a)
                t = iv_truth(a, s, lin, lo, hi)
                if t == 'other':
                    t = order_truth(a, s, rank)
                if t == 'other' and a[0] == 'zero' and a[1] == root:
                    t = not s
                if t is False:
                    good = False
                elif t is None or t == 'other' and not mentions(a, ('f', ('padd', base, root), Q.item)) and a[0] in ('pos', 'ipos', 'zero', 'lt', 'eq'):
                    sure = False
            if not good:
                continue
            if any(mentions(deld(a), me) for a in st.facts):
                rep2.check(True if cat != 'out' else (False if sure else None), 'imminent:reads', 'entries are looked at only where the queue holds some', W)
            if cat == 'out' or not same:
                rep.check(True if not pushes else (False if sure else None), 'imminent:only', 'only models with the least time are listed', W)
                continue
            want = Q.at(base, root, Q.item)
            n = sum(1 for x in pushes if x == want)
            rep.check(True if n == 1 and len(pushes) == 1 else (False if sure else None), 'imminent:once', 'a model with the least time is listed exactly once', W)
            for c in (scale(root, 2), add(scale(root, 2), num(1))):
                k = calls.count(c)
                if cat == 'last':
                    continue        # nothing is below the last entry
                if k == 0:
                    l2 = linear(sub(c, Q.N))
                    fl = {deld(a): s for a, s in st.facts.items()}
                    out = any(iv_truth(a, s, l2, None, 0) is False for a, s in fl.items())
                    later = fl.get(('lt', mn, Q.at(base, c, Q.prio))) is True
                    plain = all(iv_truth(a, s, lin, None, -1) is not None and iv_truth(a, s, lin, None, -1) != 'other' or order_truth(a, s, rank) != 'other' or
                                iv_truth(a, s, l2, 0, 0) is True or contains(a, lambda x: x[0] == 'f' and len(x) == 3 and x[1] == ('padd', base, root) and x[2] == Q.item) or a == ('zero', root)
                                for a, s in fl.items())
                    rep.check(True if out or later else (False if plain and not odd and not st.imp else None), 'imminent:all', 'every entry below one with the least time is looked at', W)
                    continue
                rep.check(True if k == 1 else (False if sure or k > 1 else None), 'imminent:all', 'every entry below one with the least time is looked at once', W)
            stray = [c for c in calls if c not in (scale(root, 2), add(scale(root, 2), num(1)))]
            rep.check(True if not stray else (False if all(isnum(c) or not vague(c) for c in stray) and sure else None), 'imminent:stray', 'no other entry is looked at', W)


class Mute:
    functions = {}

    def ok(self, *a):
        pass
    bad = und = ok

    def check(self, *a):
        pass


def Q01(cx, rep):
    """path summaries of the event queue; sifting loops evaluated on all orders of the priorities they compare"""
    m = Mute()
    m.functions = {}
    Q_rule(cx, rep, m)


def Q02(cx, rep):
    """path summaries of the event queue: bounds, storage and recorded positions"""
    m = Mute()
    m.functions = {}
    Q_rule(cx, m, rep)
