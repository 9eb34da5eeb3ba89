"""N05: state event locators.

The contents of the state, event value and flag arrays are followed symbolically; the loops of the search give,
for every round, what the step and the state become, and for every event, which path sets which flag.
"""
import itertools
from rules_num import *


# ------------------------------------------------------------------ models
def arrarg(eng, s, v):
    loc, off = eng.arrloc(v)
    A = s.mem.get(loc)
    return loc, (A if A is not None else eng.initial(s, loc))


def m_advance(name):
    def h(eng, n, st):
        out = []
        for s, o in eng.objptr(n, st):
            for s1, vs in (eng.evs(n['args'], s) if not s.out else [(s, [])]):
                if s1.out:
                    out.append((s1, UNDEF))
                    continue
                loc, A = arrarg(eng, s1, vs[0])
                s1.n += 1
                r = ('ret', name, s1.n)
                step = vs[1] if name == 'advance' else r
                s1.mem[loc] = ap('adv', A, step)
                s1.ev(Ev('call', name=name, cls='', obj=o, args=tuple(Arg((v, None, None)) for v in vs), ret=r, line=n.get('l'), fn=s1.fr.fn, x=('from', A)))
                out.append((s1, r))
        return out
    return h


def m_spinit(eng, n, st):
    out = []
    for s, o in eng.objptr(n, st):
        for s1, vs in (eng.evs(n['args'], s) if not s.out else [(s, [])]):
            if s1.out:
                out.append((s1, UNDEF))
                continue
            parts = [arrarg(eng, s1, v)[1] for v in vs[:4]]
            s1.mem[('f', o, '#spline')] = ap('spl', *(parts + [vs[4]]))
            s1.ev(Ev('call', name='init', cls='adevs::spline', obj=o, args=tuple(Arg((v, None, None)) for v in vs), ret=None, line=n.get('l'), fn=s1.fr.fn))
            out.append((s1, NULL))
    return out


def m_spinterp(eng, n, st):
    out = []
    for s, o in eng.objptr(n, st):
        for s1, vs in (eng.evs(n['args'], s) if not s.out else [(s, [])]):
            if s1.out:
                out.append((s1, UNDEF))
                continue
            loc, A = arrarg(eng, s1, vs[0])
            s1.mem[loc] = ap('interp', eng.read(s1, ('f', o, '#spline')), vs[1])
            s1.ev(Ev('call', name='interpolate', cls='adevs::spline', obj=o, args=tuple(Arg((v, None, None)) for v in vs), ret=None, line=n.get('l'), fn=s1.fr.fn))
            out.append((s1, NULL))
    return out


def loccfg():
    c = M.solver()
    for k in ('adevs::ode_solver',):
        c.models[(k, 'advance')] = m_advance('advance')
        c.models[(k, 'integrate')] = m_advance('integrate')
    c.models[('adevs::spline', 'init')] = m_spinit
    c.models[('adevs::spline', 'interpolate')] = m_spinterp
    return c


# ------------------------------------------------------------------ helpers
def findloops(trace):
    out = {}
    for e, *_ in walk(trace):
        if e.k == 'loop':
            out.setdefault(e.x.id, e.x)
    return out


def sef(Z):
    """the state an array of event values was computed at"""
    Z = norm(Z)
    if Z[0] == 'ap' and Z[1].startswith('out:state_event_func'):
        return ap_payload(Z)[1]
    return None


def upd_of(L, arr=None, term=None):
    for loc, (i, t, u) in L.updates.items():
        if (arr is not None and (loc == arr or norm(loc) == norm(arr))) or (term is not None and norm(t) == norm(term)):
            return loc, i, t, u
    return None


def somefacts(facts, E):
    """{location: whether some round of the loop set it}, for flags and counters that start unset"""
    out = {}
    for at, sg in facts.items():
        if at[0] == 'some' and at[1] == E.id:
            out[at[2]] = sg
            continue
        if at[0] not in ('pos', 'ipos', 'zero', 'ne', 'eq'):
            continue
        for loc, (i, t, u) in E.updates.items():
            t, d = norm(t), norm(at[1])
            if t[0] != 'phi' or norm(i) != num(0):
                continue
            if not all(v is None or norm(v) == t or isnum(sub(norm(v), t)) and sub(norm(v), t)[1] > 0 for _, v in u):
                continue
            if d == t and at[0] in ('pos', 'ipos'):
                out[loc] = sg
            elif d == t and at[0] == 'zero' or at[0] == 'eq' and t in at[1:] and num(0) in at[1:]:
                out[loc] = not sg
    return out


def sets(E, loc, v):
    """this value of the flag or counter says that the round set it"""
    if v is None or loc not in E.updates:
        return False
    t = norm(E.updates[loc][1])
    return v == TRUE or norm(v) != t and numlike(v, t)


def numlike(v, t):
    try:
        d = sub(norm(v), t)
    except Exception:
        return False
    return isnum(d) and d[1] > 0


def looked(facts, loops):
    """the arrays whose elements decide these conditions, also through a loop over them"""
    arrs, seen = set(), set()

    def look(fx):
        for Z in subterms(tuple(fx), lambda y: y[0] == 'elt'):
            arrs.add(norm(Z[1]))
        for at in fx:
            if at[0] == 'some' and at[1] in loops and at[1] not in seen:
                seen.add(at[1])
                for p in loops[at[1]].paths + loops[at[1]].exits:
                    look(p.facts)
    look(facts)
    return arrs


class Loc:
    def __init__(self, cx, rep, f, sm, isN, isM):
        self.cx, self.rep, self.f, self.sm, self.isN, self.isM = cx, rep, f, sm, isN, isM
        P = fnames(f, sm.prog)
        self.ev, self.q0, self.q1, self.solver, self.h = P
        self.hloc = ('obj', self.h)
        self.h0 = ('ld', self.hloc)
        self.why = None

    # ---- state and step belong together
    def start(self, A):
        """a full copy of the start state: True, False with a reason, None"""
        A = norm(A)
        if A == ('a0', self.q0):
            return True
        r = full(A, self.isN)
        if r == 'part':
            self.why = 'only part of the start state is copied'
            return False
        if r is not None:
            if r[0] == ('elt', ('a0', self.q0), T.BIND):
                return True
            if r[0] == ('elt', ('a0', self.q1), T.BIND):
                self.why = 'it starts from the end of the interval'
                return False
            self.why = 'it starts from %s' % fmt(A)[:80]
            return False if r[0][0] == 'elt' and r[0][1][0] == 'a0' and (isnum(r[0][2]) or r[0][2] == T.BIND) else None
        if A == ('a0', self.q1):
            self.why = 'it starts from the end of the interval'
            return False
        if A[0] in ('aphi', 'afin') and A[2] == self.q1 or A[0] == 'ap' and A[1] in ('adv', 'interp'):
            self.why = 'it goes on from the previous guess'
            return False
        self.why = 'it starts from %s' % fmt(A)[:80]
        return None

    def together(self, Q, H, loops, seen=()):
        Q, H = norm(Q), norm(H)
        if (Q, H) in seen:
            return True
        if Q == ('a0', self.q1):
            if H == self.h0:
                return True
            self.why = 'the state is the given one, the step is %s' % fmt(H)[:60]
            return False if known(H) else None
        if Q[0] == 'ap' and Q[1] == 'adv':
            A, v = ap_payload(Q)
            s = self.start(A)
            if s is not True:
                return s
            v = norm(v)
            if v == H:
                return True
            self.why = 'the state was advanced by %s, the step is %s' % (fmt(v)[:60], fmt(H)[:60])
            return False if known(v) and known(H) else None
        if Q[0] == 'ap' and Q[1] == 'interp':
            sp, v = ap_payload(Q)
            r = self.spline(sp, loops)
            if r is not True:
                return r
            v = norm(v)
            if v == H:
                return True
            self.why = 'the state is that at %s, the step is %s' % (fmt(v)[:60], fmt(H)[:60])
            return False if known(v) and known(H) else None
        if Q[0] in ('aphi', 'afin'):
            L = loops.get(Q[1])
            u = L and upd_of(L, arr=('arr', Q[2]))
            if not u:
                self.why = 'the state changes in another way'
                return None
            loc, qi, qt, qu = u
            if H[0] == 'phi' and H[1] == L.id or self.is_final(H, L):
                hu = L.updates.get(H[2])
                if not hu:
                    self.why = 'the step changes in another way'
                    return None
                hi, ht, hus = hu
            else:
                # the step is not changed by the loop
                hi, ht, hus = H, H, [(p, H) for p, _ in qu]
            r = self.together(qi, hi, loops, seen)
            if r is not True:
                return r
            res = True
            for p, v in qu:
                hv = next((x for pp, x in hus if pp is p), None)
                if hv is None:
                    hv = ht
                if v is None:
                    v = qt
                v2, h2 = norm(v), norm(hv)
                if v2 == norm(qt) and h2 == norm(ht):
                    continue
                if v2 == norm(qt) and h2 != norm(ht):
                    self.why = 'the step becomes %s while the state stays' % fmt(h2)[:60]
                    return False if known(h2) else None
                ls = dict(loops)
                ls.update(findloops(p.trace))
                x = self.together(v2, h2, ls, seen + ((norm(qt), norm(ht)),))
                if x is False:
                    return False
                if x is None:
                    res = None
            return res
        r = full(Q, self.isN)
        if isinstance(r, tuple) and r[0] == ('elt', ('a0', self.q0), T.BIND) and H == num(0):
            return True
        if isinstance(r, tuple) and r[0] == ('elt', ('a0', self.q0), T.BIND):
            self.why = 'the state is the start state, the step is %s' % fmt(H)[:60]
            return False
        self.why = 'the state has the form %s' % fmt(Q)[:80]
        return None

    def is_final(self, H, L):
        return False

    def spline(self, sp, loops):
        sp = norm(sp)
        if not (sp[0] == 'ap' and sp[1] == 'spl'):
            self.why = 'the interpolant is set up elsewhere'
            if sp[0] == 'ld' and sp[1][0] == 'f' and sp[1][2] == '#spline' and not contains(sp[1], lambda y: y[0] in VAGUE):
                self.why = 'the interpolant is not set up in this search'
                return False
            return None
        a, da, b, db, h = [norm(x) for x in ap_payload(sp)]
        der = lambda t: norm(ap_payload(t)[1]) if t[0] == 'ap' and t[1].startswith('out:der_func') else None
        if a != ('a0', self.q0):
            self.why = 'the interpolant starts at %s' % fmt(a)[:60]
            return False if a[0] == 'a0' else None
        if der(da) != a or der(db) != b:
            self.why = 'the interpolant is given other derivatives'
            return False if all(der(x) is not None or x[0] == 'a0' for x in (da, db)) else None
        r = self.together(b, h, loops)
        if r is not True:
            self.why = 'interpolant: ' + self.why
        return r

    # ---- bounds on the step
    def bounded(self, H, loops, facts):
        """0 <= H <= step given"""
        H = norm(H)
        if H == self.h0:
            return True
        cand = {}
        for L in loops.values():
            for loc, (i, t, u) in L.updates.items():
                if loc[0] != 'arr' and norm(t)[0] == 'phi':
                    cand[norm(t)] = (norm(i), u, L)
        B = set(cand)
        self.bad = None

        def comb(v, fx, _=True):
            """v is a combination of bounded terms"""
            v = norm(v)
            if v == self.h0 or v in B:
                return True
            ok, tot = True, F(0)
            for m, c in to_poly(v).items():
                if m == ():
                    ok = ok and c == 0
                    continue
                if len(m) == 1 and m[0][1] == 1 and (m[0][0] == self.h0 or m[0][0] in B) and c >= 0:
                    tot += c
                else:
                    ok = False
            if ok and tot <= 1:
                return True
            # bounded through conditions
            up = any(leq(v, b, fx) for b in list(B) + [self.h0])
            lo = any(leq(scale(b, k), v, fx) for b in list(B) + [self.h0] for k in (F(0), F(1, 2), F(1, 4), F(1, 8), F(1, 10), F(1)))
            if up and not lo:
                lo = self.fact_low(v, fx, B)
            if up and lo:
                return True
            if v[0] == 'ap' and v[1] in ('min', 'max'):
                return upper(v, fx) and lower(v, fx)
            return False

        def upper(v, fx):
            v = norm(v)
            if v[0] == 'ap' and v[1] == 'min':
                return any(upper(x, fx) for x in ap_payload(v))
            if v[0] == 'ap' and v[1] == 'max':
                return all(upper(x, fx) for x in ap_payload(v))
            return comb(v, fx, True) or any(leq(v, b, fx) for b in list(B) + [self.h0])

        def lower(v, fx):
            v = norm(v)
            if v[0] == 'ap' and v[1] == 'min':
                return all(lower(x, fx) for x in ap_payload(v))
            if v[0] == 'ap' and v[1] == 'max':
                return any(lower(x, fx) for x in ap_payload(v))
            return comb(v, fx, True) or self.fact_low(v, fx, B)
        while True:
            drop = None
            for t in B:
                i, u, L = cand[t]
                if i != num(0) and not comb(i, {}, True):
                    drop = (t, i)
                    break
                for p, v in u:
                    if v is None or norm(v) == t:
                        continue
                    if not comb(v, p.facts, True):
                        drop = (t, norm(v))
                        break
                if drop:
                    break
            if not drop:
                break
            if drop[0] == H or self.bad is None:
                self.bad = drop[1]
            B.discard(drop[0])
        if comb(H, facts, True):
            return True
        self.why = 'it becomes %s' % fmt(self.bad if self.bad is not None else H)[:80]
        return False if known(self.bad if self.bad is not None else H) else None

    def fact_low(self, v, fx, B):
        """a condition keeps v above a positive multiple of a bounded term"""
        for a, s in fx.items():
            if a[0] != 'pos':
                continue
            d = norm(a[1])
            g = neg(d) if s else d          # g <= 0
            # g = k*b - c*v
            rest = add(g, v)
            for c in (F(1), F(2), F(4), F(1, 2)):
                rest = add(scale(g, c), v)
                ms = [(m, k) for m, k in to_poly(rest).items() if k != 0]
                if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and (ms[0][0][0][0] in B or ms[0][0][0][0] == self.h0) and ms[0][1] >= 0:
                    return True
                if not ms:
                    return True
        return False

    # ---- event values belong to the state
    def valuesat(self, Z, Q, loops, seen=()):
        """Z holds the event values at Q: True, False, None"""
        Z, Q = norm(Z), norm(Q)
        if (Z, Q) in seen:
            return True
        X = sef(Z)
        if X is not None:
            if norm(X) == Q:
                return True
            self.why = 'they are computed at %s' % fmt(norm(X))[:60]
            return False if not contains(Q, lambda y: y[0] == 'unk') and not contains(X, lambda y: y[0] == 'unk') else None
        if Z[0] in ('aphi', 'afin') and Q[0] in ('aphi', 'afin') and Z[1] == Q[1]:
            L = loops.get(Z[1])
            uz, uq = L and upd_of(L, arr=('arr', Z[2])), L and upd_of(L, arr=('arr', Q[2]))
            if not uz or not uq:
                self.why = 'they change in another way'
                return None
            r = self.valuesat(uz[1], uq[1], loops, seen)
            if r is not True:
                return r
            for p, v in uz[3]:
                qv = next((x for pp, x in uq[3] if pp is p), None)
                v = uz[2] if v is None else v
                qv = uq[2] if qv is None else qv
                if norm(v) == norm(uz[2]) and norm(qv) == norm(uq[2]):
                    continue
                ls = dict(loops)
                ls.update(findloops(p.trace))
                r = self.valuesat(v, qv, ls, seen + ((norm(uz[2]), norm(uq[2])),))
                if r is not True:
                    return r
            return True
        if Z[0] in ('aphi', 'afin') or Q[0] in ('aphi', 'afin'):
            if Z[0] in ('aphi', 'afin'):
                self.why = 'they are those of the previous guess'
                L = loops.get(Z[1])
                return None
            self.why = 'they are not updated in the search'
            return False if X is not None else None
        if Z[0] == 'a0':
            self.why = 'they are left from an earlier search'
            return False
        self.why = 'they have the form %s' % fmt(Z)[:60]
        return None


def known(t):
    """a term about which nothing is hidden"""
    return not contains(t, lambda y: y[0] in ('unk', 'afin', 'undef'))


GRID = [F(-3), F(-1), F(-1, 4), F(0), F(1, 4), F(1), F(3)]
PAIRS = [(x, y) for x in GRID for y in GRID]


def value_at(t, a, b, x, y):
    """a term in a and b at (x, y), as the machine computes it (division by zero gives an infinity); None when something else is in it"""
    t = norm(t)
    if t == a:
        return float(x)
    if t == b:
        return float(y)
    if isnum(t):
        return float(t[1])
    if t[0] == 'ap' and t[1] in ('abs', 'min', 'max'):
        v = [value_at(z, a, b, x, y) for z in ap_payload(t)]
        if any(z is None for z in v):
            return None
        return abs(v[0]) if t[1] == 'abs' else min(v) if t[1] == 'min' else max(v)
    if t[0] == 'poly':
        tot = 0.0
        for m, c in to_poly(t).items():
            w, d = float(c), 1.0
            for z, k in m:
                u = value_at(z, a, b, x, y)
                if u is None or k != int(k):
                    return None
                for _ in range(abs(int(k))):
                    if k > 0:
                        w *= u
                    else:
                        d *= u
            if d == 0.0:
                w = float('nan') if w == 0 or w != w else w * float('inf')
            else:
                w /= d
            tot += w
        return tot
    return None


def shorter(lo, L, H, loops):
    """a search without a bracket: is the step of every round positive and less than the one before?  None: bracket; '?': not known"""
    res = True
    for p, v in L.updates[H[2]][2]:
        if v is None or norm(v) == H:
            continue
        v = norm(v)
        q = to_poly(v)
        if v[0] == 'phi' and v[1] in loops and v[1] != L.id and v[2] in loops[v[1]].updates and norm(loops[v[1]].updates[v[2]][0]) == H:
            r = candidate(lo, L, p, H, v, loops[v[1]])
            if r is False:
                return False
            if r is None:
                res = '?'
        elif set(q) == {((H, 1),)}:
            c = q[((H, 1),)]
            if not 0 < c < 1:
                lo.why = '%s times the one before' % c
                return False
        elif contains(v, lambda y: y[0] == 'phi' and y[1] == L.id and y != H):
            return None
        else:
            lo.why = 'the next step is %s' % fmt(v)[:80]
            res = '?'
    return res


def exhausted(prog, facts):
    """do the facts leave no enumerator for something of enumeration type"""
    no = {}
    for a, s in facts.items():
        if a[0] == 'eq' and not s:
            for e, x in ((a[1], a[2]), (a[2], a[1])):
                if e[0] == 'enum':
                    no.setdefault(norm(x), set()).add(e[1])
    return any({n for n, _ in e['e']} <= ns for ns in no.values() for e in prog.enums if e['e'])


def candidate(lo, L, p, H, v, K):
    """the step found while the events are looked at, starting from the present one: the values for which the search goes on, at sample points"""
    go = [a[2] for a, s in p.facts.items() if a[0] == 'some' and s and a[1] == K.id and all(x.facts.get(a) is True for x in L.paths)]
    stay = [(a, s) for a, s in p.facts.items() if a[0] not in ('some', 'complete', 'done') and not contains(a, lambda y: y[0] in ('phi', 'ix', 'aphi', 'afin'))]
    if not go:
        lo.why = 'why the search goes on is not understood'
        return None
    ups = {id(q): w for q, w in K.updates[v[2]][2]}
    tol = lambda y: y[0] == 'ld' and y[1][0] == 'f' and 'tol' in str(y[1][2])
    res = True
    for q, f in K.updates[go[0]][2] if go[0] in K.updates else ():
        fs = consistent(q.facts, stay)
        if f != TRUE or fs is None or exhausted(lo.sm.prog, fs):
            continue
        w = norm(ups.get(id(q)) or v)
        num_ = [(norm(a[1]), a[0], s) for a, s in q.facts.items() if a[0] in ('pos', 'ipos', 'zero')
                and contains(a, lambda y: y == H or y == v or tol(y) or y[0] == 'elt')]
        leaf = {}

        def leaves(t):
            t = norm(t)
            if isnum(t) or t in leaf:
                return
            if t[0] == 'ap' and t[1] in ('abs', 'min', 'max'):
                for z in ap_payload(t):
                    leaves(z)
            elif t[0] == 'poly':
                for m in to_poly(t):
                    for z, _ in m:
                        leaves(z)
            else:
                leaf[t] = [F(1, 2), F(2)] if t == H else [None] if t == v else [F(1, 8)] if tol(t) else GRID if t[0] == 'elt' else None
        for t, _, _ in num_:
            leaves(t)
        leaves(w)
        if any(g is None for g in leaf.values()) or sum(g is GRID for g in leaf.values()) > 3:
            lo.why = 'the next step depends on something else'
            res = None
            continue
        ks = list(leaf)
        for xs in itertools.product(*(leaf[k] for k in ks)):
            env = dict(zip(ks, xs))
            h = env.setdefault(H, F(1))
            env[v] = h
            fine = True
            for t, k, s in num_:
                x = value_env(t, env)
                if x is None or x != x or ((x > 0) if k != 'zero' else (x == 0)) != s:
                    fine = False
                    break
            if not fine:
                continue
            x = value_env(w, env)
            if x is None:
                lo.why = 'the next step is %s' % fmt(w)[:80]
                res = None
                break
            if not 0 < x < h:
                x = x / float(h)
                vs = ', '.join('%s' % e for k, e in env.items() if k[0] == 'elt')
                lo.why = 'it is %s times the one before with the event values %s' % (x, vs) if x != 1 else 'it stays the same with the event values %s' % vs if vs else 'it stays the same'
                return False
    return res


def value_env(t, env):
    """a term at a point, as the machine computes it"""
    t = norm(t)
    if t in env:
        return float(env[t])
    if isnum(t):
        return float(t[1])
    if t[0] == 'ap' and t[1] in ('abs', 'min', 'max'):
        v = [value_env(z, env) for z in ap_payload(t)]
        if any(z is None for z in v):
            return None
        return abs(v[0]) if t[1] == 'abs' else min(v) if t[1] == 'min' else max(v)
    if t[0] == 'poly':
        tot = 0.0
        for m, c in to_poly(t).items():
            w, d = float(c), 1.0
            for z, k in m:
                u = value_env(z, env)
                if u is None or k != int(k):
                    return None
                for _ in range(abs(int(k))):
                    if k > 0:
                        w *= u
                    else:
                        d *= u
            if d == 0.0:
                w = float('nan') if w == 0 or w != w else w * float('inf')
            else:
                w /= d
            tot += w
        return tot
    return None


def signs(atom, a, b, H, tol):
    """value of an atom as a function of the values of a and b: callable, or None"""
    if atom[0] in ('pos', 'ipos', 'zero') and value_at(atom[1], a, b, F(1), F(2)) is not None and contains(norm(atom[1]), lambda y: y in (a, b)):
        def f(x, y):
            v = value_at(atom[1], a, b, x, y)
            return v > 0 if atom[0] != 'zero' else v == 0
        return f
    return None


def sgn(x):
    return (x > 0) - (x < 0)


CRIT = {'adevs::event_locator_impl': (lambda sa, sb: sgn(sa) != sgn(sb), 'the sign differs from that at the start'),
        'adevs::fast_event_locator': (lambda sa, sb: sa * sb <= 0, 'the product with the value at the start is not positive')}


def onlym(facts, isM, k):
    """do all facts speak of the number of events alone, and hold when it is k"""
    for a, s in facts.items():
        if a[0] in ('complete', 'done'):
            continue
        if a[0] not in ('pos', 'ipos', 'zero'):
            return False
        x = F(0)
        for m, c in to_poly(norm(a[1])).items():
            if any(not isM(z) for z, _ in m):
                return False
            x += c * F(k) ** sum(int(e) for _, e in m)
        if ((x > 0) if a[0] != 'zero' else (x == 0)) != s:
            return False
    return True


def flags_rule(lo, st, ret, loops, crit, key):
    rep, sm = lo.rep, lo.sm
    Fa = st.mem.get(('arr', lo.ev))
    Mle0 = any((a[0] == 'ipos' and not s and lo.isM(norm(a[1]))) or (a[0] == 'zero' and s and lo.isM(norm(a[1]))) for a, s in st.facts.items())
    if Mle0:
        if ret == FALSE:
            rep.ok(key + ':empty: without events none is reported')
        elif ret == TRUE:
            rep.bad(key + ':empty', 'fails: an event is reported although there are none', sm.where)
        return
    if Fa is None:
        rep.bad(key + ':flags', 'fails: every event flag is set on return', sm.where)
        return
    Q = norm(st.mem.get(('arr', lo.q1), ('a0', lo.q1)))
    Fn = norm(Fa)
    r = full(Fn, lo.isM) if islam(Fn) else None
    if r == 'part':
        rep.bad(key + ':flags', 'fails: every event flag is set on return (only part of them)', sm.where)
        return
    if isinstance(r, tuple) and (r[0] in (num(0), FALSE) or r[0] in (num(1), TRUE)):
        is0 = r[0] in (num(0), FALSE)
        if is0 and ret == TRUE:
            rep.bad(key + ':flags', 'fails: the flags tell which event occurred (an event is reported, no flag is set)', sm.where)
        elif is0 and ret == FALSE:
            rep.ok(key + ':flags: all flags are false when no event is reported')
            # was that justified? the values that were looked at belong to this state
            none_rule(lo, st, Q, loops, crit, key)
        elif ret == FALSE:
            rep.bad(key + ':flags', 'fails: all flags are false when no event is reported (they are set)', sm.where)
        else:
            rep.bad(key + ':flags', 'fails: a flag is set exactly when %s (all are set)' % crit[1], sm.where)
        return
    # the loop that sets the flags
    E, Eu = None, None
    for e in reversed([e for e in st.trace if e.k == 'loop' and not e.x.partial]):
        u = upd_of(e.x, arr=('arr', lo.ev))
        if u:
            E, Eu = e.x, u
            break
    if (E is None or E.kind != 'index') and ret == FALSE and not islam(Fn):
        k = next((k for k in (1, 2, 3) if onlym(st.facts, lo.isM, k)), None)
        if k is not None:
            rep.bad(key + ':empty', 'fails: no event is reported only when none occurred (with %d event%s nothing is looked at)' % (k, 's' * (k > 1)), sm.where)
            return
    if E is None or E.kind != 'index' or not E.regular or not E.range:
        # loops that enclose the return
        rep.und(key + ':flags', 'the flags are set in another way')
        return
    s, e = norm(E.range[0]), norm(E.range[1])
    if not (s == num(0) and lo.isM(e)):
        if all(len(m) == 1 and (lo.isM(m[0][0]) or sibling(m[0][0], lo.isM)) for q in (s, e) for m in to_poly(q) if m != ()):
            rep.bad(key + ':flags', 'fails: every event flag is set on return (those from %s to %s are)' % (fmt(s), fmt(e)), sm.prog.where(E.line))
        else:
            rep.und(key + ':flags', 'the flags from %s to %s are set' % (fmt(s), fmt(e)))
        return
    if E.exits:
        rep.und(key + ':flags', 'the loop over the events may stop early')
        return
    ix = ('ix', E.id)
    some = somefacts(st.facts, E)
    anytrue = False
    wh = sm.prog.where(E.line)
    H = norm(st.mem.get(lo.hloc, ('ld', lo.hloc, 0)))
    vals = {}
    for Z in subterms(tuple(a for p in E.paths for a in p.facts), lambda y: y[0] == 'elt' and y[2] == ix):
        vals[norm(Z[1])] = norm(Z)
    a = [z for A, z in vals.items() if sef(A) is not None and norm(sef(A)) == ('a0', lo.q0)]
    b = [(A, z) for A, z in vals.items() if not (sef(A) is not None and norm(sef(A)) == ('a0', lo.q0)) and (sef(A) is not None or A[0] in ('aphi', 'afin'))]
    if len(a) != 1 or len(b) != 1:
        starts = [norm(sef(A)) if sef(A) is not None else A for A in vals]
        if not a and len(vals) in (1, 2) and not any(contains(x, lambda y: y[0] == 'unk') for x in starts) and (sef(list(vals)[0]) is not None or len(vals) == 2):
            rep.bad(key + ':values', 'fails: the flags compare with the event values at the start (%s)' % ', '.join(fmt(x)[:40] for x in starts), wh)
        elif len(a) == 1 and len(vals) == 2 and any(A[0] == 'a0' for A in vals):
            rep.bad(key + ':values', 'fails: the flags are those of the state handed back (the event values are left from an earlier search)', wh)
        elif any(isnum(norm(Z[2])) and sef(Z[1]) is not None for Z in subterms(tuple(a for p in E.paths for a in p.facts), lambda y: y[0] == 'elt' and y[2] != ix)):
            rep.bad(key + ':values', 'fails: the flag of an event is decided by the values of that event (a fixed entry is looked at)', wh)
        else:
            rep.und(key + ':flags', 'the values that decide the flags are not recognised')
        return
    a, (bA, b) = a[0], b[0]
    v = lo.valuesat(bA, Q, loops)
    if v is False:
        rep.bad(key + ':values', 'fails: the flags are those of the state handed back (the event values: %s)' % lo.why, wh)
        return
    if v is None:
        rep.und(key + ':values', lo.why)
    else:
        rep.ok(key + ':values: the flags are those of the state handed back')
    holds, text = crit
    for p, fv in Eu[3]:
        fv = norm(fv) if fv is not None else norm(Eu[2])
        # does the path remain possible at this return?
        possible = True
        for loc, sg in some.items():
            u = E.updates.get(loc)
            x = next((v for pp, v in u[2] if pp is p), None) if u else None
            if sg is False and sets(E, loc, x):
                possible = False
        if not possible:
            continue
        flag = None
        A = fv
        while A[0] == 'st':
            if A[2] == ix:
                flag = A[3]
                break
            A = A[1]
        if flag is None:
            if A == norm(Eu[2]) and not vague(tuple(p.facts)) or A == norm(Eu[2]):
                base = norm(Eu[1])
                rb = full(base, lo.isM) if islam(base) else None
                if isinstance(rb, tuple) and rb[0] in (num(0), FALSE):
                    flag = FALSE
                elif base == ('a0', lo.ev) or base[0] in ('aphi',):
                    rep.bad(key + ':flags', 'fails: every event flag is set on return (an event may keep the flag of an earlier guess)', wh)
                    return
        if flag not in (TRUE, FALSE):
            rep.und(key + ':flags', 'a flag becomes %s' % (fmt(flag)[:60] if flag else '?'))
            return
        fs, odd, tols = [], False, []
        for at, sg in p.facts.items():
            if not contains(at, lambda y: y in (a, b) or y == ix or (y[0] == 'elt' and y[2] == ix)):
                if at[0] == 'pos' and H is not None and contains(norm(at[1]), lambda y: y == H):
                    tols.append((at, sg))
                continue
            g = signs(at, a, b, H, None)
            if g is not None:
                fs.append((g, sg))
            elif contains(at, lambda y: y[0] == 'ap' and y[1] == 'abs'):
                tols.append((at, sg))
            elif at[0] in ('ipos',) and not contains(norm(at[1]), lambda y: y in (a, b)):
                pass
            else:
                odd = True
        pairs = [(x, y) for x, y in PAIRS if all(g(x, y) == sg for g, sg in fs)]
        if not pairs:
            continue
        if flag == TRUE:
            anytrue = True
        right = {holds(x, y) for x, y in pairs}
        if flag == TRUE and False in right or flag == FALSE and True in right:
            if odd and flag == FALSE:
                rep.und(key + ':flags', 'a condition on the event values has another form')
                return
            if odd:
                rep.und(key + ':flags', 'a condition on the event values has another form')
                return
            w = next((x, y) for x, y in pairs if holds(x, y) == (flag == FALSE))
            rep.bad(key + ':criterion', 'fails: a flag is set exactly when %s (it is %s with the value %s at the start and %s at the end)'
                    % (text, 'set' if flag == TRUE else 'not set', w[0], w[1]), wh)
            return
        if flag == TRUE and lo.tolerant:
            tol_rule(lo, rep, p, a, b, H, key, wh)
    if ret == FALSE and anytrue:
        rep.bad(key + ':flags', 'fails: all flags are false when no event is reported (one may be set)', wh)
    elif ret == TRUE and not anytrue:
        rep.bad(key + ':flags', 'fails: the flags tell which event occurred (an event is reported, no flag is set)', wh)
    else:
        rep.ok('%s:flags: each flag is set exactly when %s' % (key, text))
        if ret == TRUE:
            narrow(lo, st, H, loops, key)
            if not bracket(lo, st, Q, loops, crit, key) and not witness(lo, st, E, some, loops, Eu, key, wh):
                unlooked(lo, st, Q, loops, E, key)
        elif ret == FALSE:
            pass


def witness(lo, st, E, some, loops, Eu, key, wh):
    """an event is reported only when at least one flag is set"""
    rep = lo.rep
    for loc, sg in some.items():
        if sg is not True:
            continue
        u = E.updates[loc]
        good = True
        for p, v in u[2]:
            if sets(E, loc, v):
                fv = next((norm(x) for pp, x in Eu[3] if pp is p), None)
                if not (fv is not None and fv[0] == 'st' and fv[3] == TRUE):
                    good = False
        if good:
            rep.ok(key + ':report: an event is reported only when a flag is set')
            return True


def bracket(lo, st, Q, loops, crit, key):
    """a boolean of the search that leads to the report is kept up to date with the state"""
    rep = lo.rep
    if Q[0] not in ('aphi', 'afin'):
        return
    L = loops.get(Q[1])
    uq = L and upd_of(L, arr=('arr', Q[2]))
    if not uq:
        return
    for at, sg in st.facts.items():
        if at[0] != 't' or at[1][0] != 'phi' or at[1][1] != L.id or not sg:
            continue
        u = L.updates.get(at[1][2])
        if not u:
            continue
        res = True
        for p, v in u[2]:
            qv = next((norm(x) for pp, x in uq[3] if pp is p and x is not None), norm(uq[2]))
            if v is None or norm(v) == norm(u[1]):
                if qv != norm(uq[2]):
                    rep.bad(key + ':report', 'fails: an event is reported only when one occurs at the state handed back (the state changes, %s does not)' % fmt(at[1][2]), lo.sm.prog.where(L.line))
                    return
                continue
            if v == TRUE:
                ls = dict(loops)
                ls.update(findloops(p.trace))
                zs = [sef(A) for A in looked(p.facts, ls)]
                if any(X is not None and norm(X) == qv for X in zs):
                    continue
                if zs and all(X is not None for X in zs):
                    rep.bad(key + ':report', 'fails: an event is reported only when one occurs at the state handed back (another state is looked at)', lo.sm.prog.where(L.line))
                    return
                res = None
            elif v != FALSE:
                res = None
        if res:
            rep.ok(key + ':report: an event is reported only when one occurs at the state handed back')
        else:
            rep.und(key + ':report', 'conditions of another form')
        return True


def narrow(lo, st, H, loops, key):
    """the interval in which the search looks keeps the first change of sign"""
    rep = lo.rep
    H = norm(H)
    tolerant = lambda y: y[0] == 'ld' and y[1][0] == 'f' and 'tol' in str(y[1][2])
    if not lo.tolerant and not any(contains(at, tolerant) for at in st.facts):
        rep.bad(key + ':tolerance', 'fails: an event is reported only when the interval it lies in is within the tolerance (it is not looked at)', lo.sm.where)
        return
    if H[0] != 'phi' or H[1] not in loops:
        return
    L = loops[H[1]]
    if not lo.tolerant:
        guess(lo, L, H, st, key)
    for at, sg in st.facts.items():
        if at[0] != 'pos':
            continue
        d = norm(at[1]) if sg else neg(norm(at[1]))
        q = to_poly(d)
        ends = {}
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'phi' and m[0][0][1] == L.id and abs(c) == 1:
                ends[m[0][0]] = c
        if not any('tol' in str(m) for m in q) or not ends:
            continue
        for t, c in ends.items():
            if t == H:
                continue
            i, _, us = L.updates[t[2]]
            side = 'lower' if c > 0 else 'upper'
            good = True
            for p, v in us:
                if v is None or norm(v) != H:
                    continue
                for a2, s2 in p.facts.items():
                    if a2[0] == 't' and a2 in st.facts and st.facts[a2] is True and a2[1][0] == 'phi' and a2[1][1] == L.id:
                        if s2 is (side == 'lower'):
                            rep.bad(key + ':bracket', 'fails: the interval searched keeps the first event (its %s end moves to the guess %s)' % (
                                side, 'although a function changed sign there' if side == 'lower' else 'although no function changed sign up to there'), lo.sm.prog.where(L.line))
                            good = False
            if good:
                rep.ok(key + ':bracket: the interval searched keeps the first event')


def guess(lo, L, H, st, key):
    """the search ends only when the interval is narrower than the tolerance, and each guess lies strictly inside the interval"""
    rep, wh = lo.rep, lo.sm.prog.where(L.line)
    tolerant = lambda y: y[0] == 'ld' and y[1][0] == 'f' and 'tol' in str(y[1][2])
    fs = [(at, sg) for at, sg in st.facts.items() if contains(at, tolerant)]
    ends = None
    for at, sg in fs:
        if at[0] != 'pos':
            rep.und(key + ':tolerance', 'another condition')
            continue
        d = norm(at[1]) if sg else neg(norm(at[1]))        # >= 0
        q = to_poly(d)
        t = next((c for m, c in q.items() if len(m) == 1 and tolerant(m[0][0]) and m[0][1] == 1), None)
        ph = {m[0][0]: c for m, c in q.items() if len(m) == 1 and m[0][0][0] == 'phi' and m[0][0][1] == L.id and m[0][1] == 1}
        rest = [m for m in q if not (len(m) == 1 and (tolerant(m[0][0]) or m[0][0] in ph))]
        hi = [x for x, c in ph.items() if c < 0]
        lw = [x for x, c in ph.items() if c > 0]
        if t is None or rest or len(hi) != 1 or len(lw) != 1 or ph[hi[0]] != -ph[lw[0]]:
            if t is not None and not rest and len(ph) == 2 or t is not None and t < 0 and not rest:
                rep.bad(key + ':tolerance', 'fails: an event is reported only when the interval it lies in is within the tolerance (it is with %s)' % fmt_lit(at, sg)[:80], wh)
            else:
                rep.und(key + ':tolerance', 'another condition')
            continue
        k = t / -ph[hi[0]]
        if k <= 0:
            rep.bad(key + ':tolerance', 'fails: an event is reported only when the interval it lies in is within the tolerance (it is when it is wider)', wh)
            continue
        if k > 1:
            rep.bad(key + ':tolerance', 'fails: an event is reported only when the interval it lies in is within the tolerance (%s times the tolerance)' % k, wh)
            continue
        rep.ok(key + ':tolerance: an event is reported only when the interval it lies in is within the tolerance')
        ends = lw[0], hi[0]
    if ends is None:
        return
    a, b = ends
    # the first round: an end must not meet the other one while no event has been found
    init = {x: norm(L.updates[x[2]][0]) for x in [norm(u[1]) for u in L.updates.values() if norm(u[1])[0] == 'phi'] if x[2] in L.updates}
    first = lambda t: norm(subst(t, lambda y: init.get(y)))
    for p in L.paths:
        new = {x: next((norm(v) for q, v in L.updates[x[2]][2] if q is p and v is not None), x) if x[2] in L.updates else x for x in (a, b)}
        if new[a] == a or first(new[a]) != first(new[b]):
            continue
        lits, sure = [], False
        for at, sg in p.facts.items():
            t = subst(at, lambda y: init.get(norm(y)) if y[0] == 'phi' else None) if contains(at, lambda y: y[0] == 'phi') else at
            if t[0] == 't' and t[1] in (TRUE, FALSE):
                if (t[1] == TRUE) != sg:
                    break
                sure = True
            elif t[0] not in ('complete', 'done', 'some') and not contains(t, lambda y: y[0] == 'ix'):
                lits.append((t, sg))
        else:
            if sure and consistent(st.facts, lits) is not None:
                rep.bad(key + ':bracket', 'fails: the interval searched keeps the first event (it may be empty from the start: both ends become %s)' % fmt(first(new[a])), wh)
                return
    up = {x: {id(p): (norm(v) if v is not None else x) for p, v in L.updates[x[2]][2]} for x in (a, b, H) if x[2] in L.updates}
    for p, v in L.updates[H[2]][2]:
        if v is None or norm(v) == H:
            continue
        A, B = up.get(a, {}).get(id(p), a), up.get(b, {}).get(id(p), b)
        v = norm(v)
        bad = None
        for k in (F(1, 2),):
            if v == add(scale(A, k), scale(B, 1 - k)):
                rep.ok(key + ':guess: a guess lies inside the interval searched')
                break
        else:
            # another combination of the two ends
            q = to_poly(sub(v, A))
            w = to_poly(sub(B, A))
            r = None
            if w and set(q) == set(w):
                cs = {q[m] / w[m] for m in w}
                r = cs.pop() if len(cs) == 1 else None
            if r is not None and 0 < r < 1:
                rep.ok(key + ':guess: a guess lies inside the interval searched')
            elif all(len(m) == 1 and (m[0][0][0] == 'phi' or m[0][0] == lo.h0) or m == () for m in to_poly(v)):
                rep.bad(key + ':guess', 'fails: a guess lies inside the interval searched (%s between %s and %s)' % (fmt(v)[:60], fmt(A)[:40], fmt(B)[:40]), wh)
            else:
                rep.und(key + ':guess', 'the guess is %s' % fmt(v)[:80])


def unlooked(lo, st, Q, loops, E, key):
    """an event is reported, and no condition on the way looks at the state handed back"""
    rep = lo.rep
    arrs = looked({a: x for a, x in st.facts.items() if not (a[0] == 'some' and a[1] == E.id)}, loops)
    arrs = {A for A in arrs if sef(A) is not None or A[0] in ('aphi', 'afin', 'a0')}
    if not arrs:
        if not any(at[0] == 'some' and sg is True or contains(at, lambda y: y[0] in ('elt', 'unk', 'ret')) or at[0] == 't' for at, sg in st.facts.items()) and not any(
                contains(at, lambda y: y[0] == 'elt') for L in loops.values() if L.id != E.id and any(pp.facts for pp in L.exits) for pp in L.paths + L.exits for at in pp.facts):
            rep.bad(key + ':report', 'fails: an event is reported only when a flag is set (nothing on the way looks at the event functions)', lo.sm.where)
        else:
            rep.und(key + ':report', 'conditions of another form')
        return
    res = [lo.valuesat(A, Q, loops) for A in arrs]
    if any(r is True for r in res):
        rep.ok(key + ':report: an event is reported only after looking at the state handed back')
    elif all(r is False for r in res):
        rep.bad(key + ':report', 'fails: an event is reported only when one occurs at the state handed back (the conditions look at other states only)', lo.sm.where)
    else:
        rep.und(key + ':report', 'conditions of another form')


def tol_rule(lo, rep, p, a, b, H, key, wh):
    """a flag is set only within the tolerance that applies to the mode"""
    near = short = False
    for at, sg in p.facts.items():
        if at[0] != 'pos':
            continue
        d = norm(at[1])
        q = to_poly(d)
        if len(q) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in q):
            continue
        (m1, c1), (m2, c2) = sorted(q.items(), key=lambda x: x[1])
        lo_, hi = m1[0][0], m2[0][0]       # c1 < 0 < c2:  hi*c2 > lo*(-c1)
        small, big = (hi, lo_) if not sg else (lo_, hi)
        if c1 >= 0 or c2 <= 0:
            continue
        if not (big[0] == 'ld' and 'tol' in str(big[1])):
            continue
        if small == H:
            short = True
        elif small[0] == 'ap' and small[1] == 'abs':
            x = norm(ap_payload(small)[0])
            if x in (b, neg(b)):
                near = True
            elif x in (a, neg(a)):
                rep.bad(key + ':tolerance', 'fails: an event is where its function at the state handed back is within the tolerance (the value at the start is tested)', wh)
                return
    disc = None
    for at, sg in p.facts.items():
        if at[0] == 'eq' and any(str(x).find('DISCONTINUOUS') >= 0 for x in at[1:]):
            disc = sg
    if near and disc is not True or short and disc is not False and disc is not None or short and near:
        rep.ok(key + ':tolerance: an event is flagged only within the tolerance')
    elif not near and not short:
        fs = [at for at in p.facts if contains(at, lambda y: y[0] == 'ld' and 'tol' in str(y[1]))]
        plain = all(at[0] == 'pos' and len(to_poly(norm(at[1]))) == 2 and all(len(m) == 1 and (m[0][0] == H or m[0][0][0] == 'ld' or
                    m[0][0][0] == 'ap' and m[0][0][1] == 'abs') for m in to_poly(norm(at[1]))) for at in fs)
        rep.check(False if plain else None, key + ':tolerance', 'an event is flagged only within the tolerance', wh)
    elif near and disc is True or short and disc is False:
        rep.bad(key + ':tolerance', 'fails: an event is flagged only within the tolerance (that of the other mode is used)', wh)


def none_rule(lo, st, Q, loops, crit, key):
    """all flags cleared at once: no event may satisfy the criterion"""
    rep = lo.rep
    wh = lo.sm.where
    holds, text = crit
    for e in reversed([e for e in st.trace if e.k == 'loop' and e.x.kind == 'index']):
        E = e.x
        ix = ('ix', E.id)
        vals = {}
        for Z in subterms(tuple(a for p in E.paths + E.exits for a in p.facts), lambda y: y[0] == 'elt' and y[2] == ix):
            vals[norm(Z[1])] = norm(Z)
        a = [z for A, z in vals.items() if sef(A) is not None and norm(sef(A)) == ('a0', lo.q0)]
        b = [(A, z) for A, z in vals.items() if z not in a and (sef(A) is not None or A[0] in ('aphi', 'afin'))]
        if len(a) != 1 or len(b) != 1:
            continue
        if E.partial:
            # the loop was left early: what does that say?
            for p in E.exits:
                fs = [(signs(at, a[0], b[0][1], None, None), sg) for at, sg in p.facts.items()]
                fs = [(g, sg) for g, sg in fs if g is not None]
                pairs = [(x, y) for x, y in PAIRS if all(g(x, y) == sg for g, sg in fs)]
                if fs and pairs and any(holds(x, y) for x, y in pairs) and lo.valuesat(b[0][0], Q, loops) is True:
                    rep.bad(key + ':none', 'fails: no event is reported only when none occurred (the values %s and %s)' % next((x, y) for x, y in pairs if holds(x, y)), lo.sm.prog.where(E.line))
                    return
            continue
        s, en = norm(E.range[0]), norm(E.range[1])
        if not (s == num(0) and lo.isM(en)):
            if all(len(m) == 1 and (lo.isM(m[0][0]) or sibling(m[0][0], lo.isM)) for q in (s, en) for m in to_poly(q) if m != ()):
                rep.bad(key + ':none', 'fails: no event is reported only when none occurred (the events from %s to %s are looked at)' % (fmt(s), fmt(en)), lo.sm.prog.where(E.line))
                return
            continue
        v = lo.valuesat(b[0][0], Q, loops)
        if v is not True:
            rep.check(v, key + ':none', 'the events looked for are those of the state handed back', lo.sm.prog.where(E.line))
            return
        some = somefacts(st.facts, E)
        for p in E.paths:
            if any(sg is False and sets(E, loc, next((v for pp, v in E.updates[loc][2] if pp is p), None)) for loc, sg in some.items()):
                continue
            fs = [(signs(at, a[0], b[0][1], None, None), sg) for at, sg in p.facts.items()]
            fs = [(g, sg) for g, sg in fs if g is not None]
            pairs = [(x, y) for x, y in PAIRS if all(g(x, y) == sg for g, sg in fs)]
            if any(holds(x, y) for x, y in pairs):
                if fs:
                    rep.bad(key + ':none', 'fails: no event is reported only when none occurred (the values %s and %s)' % next((x, y) for x, y in pairs if holds(x, y)), lo.sm.prog.where(E.line))
                else:
                    rep.und(key + ':none', 'conditions of another form')
                return
        rep.ok(key + ':none: no event is reported only when none occurred')
        return
    if any(contains(at, lambda y: y[0] in ('elt', 'ret', 'unk', 'afin')) or at[0] in ('some', 't') for at in st.facts) or any(
            contains(at, lambda y: y[0] == 'elt') for L in loops.values() for p in L.paths + L.exits for at in p.facts):
        rep.und(key + ':none', 'conditions of another form')
    else:
        rep.bad(key + ':none', 'fails: no event is reported only when none occurred (the event functions are not looked at)', wh)


def N05(cx, rep):
    """contents of state, event value and flag arrays through the rounds of the search; sign conditions of every path compared with the locator's criterion"""
    p = cx.prog('solvers')
    isN = dims(cx)
    names = set()
    for f in p.find('adevs::ode_system', 'numEvents'):
        for s in cx.summary('solvers', f, 'solver').normal():
            o = s.out[1] if s.out else None
            if o is not None and o[0] == 'ld' and o[1][0] == 'f':
                names.add(o[1][2])
    if not names:
        raise Undecided('numEvents is computed')
    def isM(t):
        return t is not None and t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in names
    isM.names = names
    if not p.recb.get('adevs::event_locator_impl') or not p.recb.get('adevs::fast_event_locator'):
        raise Broken('a locator is gone')
    for (cb, n), l in sorted(p.byq.items()):
        if n != 'find_events':
            continue
        for f in l:
            if not f.get('body') or len(f['params']) != 5:
                continue
            name = cb.split('::')[-1]
            try:
                sm = cx.summary('solvers', f, 'solver:loc', cfg=loccfg()).use(rep)
                locator(cx, rep, f, sm, isN, isM, name, CRIT.get(cb))
            except Undecided as e:
                rep.und(name, str(e))


def locator(cx, rep, f, sm, isN, isM, name, crit):
    lo = Loc(cx, rep, f, sm, isN, isM)
    if crit is not None:
        outs = [st.out[1] if st.out else None for st in sm.normal()]
        if outs and all(o == FALSE for o in outs):
            rep.bad(name + ':reports', 'fails: an event inside the interval is reported (none ever is)', sm.where)
        elif TRUE in outs:
            rep.ok(name + ':reports: there is a way to report an event')
    lo.tolerant = name == 'event_locator_impl'
    looks = any(e.k == 'call' and e.name == 'state_event_func' for st in sm.states for e in events(st.trace))
    for st in sm.normal():
        ret = st.out[1] if st.out else None
        loops = findloops(st.trace)
        away = [L for L in loops.values() if L.away]
        if away:
            rep.bad(name + ':looks', 'fails: every event is looked at (the index runs away from its limit)', sm.prog.where(away[0].line))
            return
        Q = st.mem.get(('arr', lo.q1), ('a0', lo.q1))
        H = st.mem.get(lo.hloc, ('ld', lo.hloc, 0))
        r = lo.together(Q, H, loops)
        if r is False:
            rep.bad(name + ':together', 'fails: the state handed back is that at the end of the step handed back, computed from the start (%s)' % lo.why, sm.where)
        elif r is None:
            rep.und(name + ':together', lo.why)
        else:
            rep.ok(name + ':together: the state handed back is that at the end of the step handed back, computed from the start')
        Qn, Hn = norm(Q), norm(H)
        L = loops.get(Qn[1]) if Qn[0] in ('aphi', 'afin') else None
        if L is not None and Hn[0] == 'phi' and Hn[1] == L.id and Hn[2] in L.updates:
            held = [p for p, v in L.updates[Hn[2]][2] if v is None or norm(v) == Hn]
            sub_ = None if held else shorter(lo, L, Hn, loops)
            if sub_ is not None:
                if sub_ is False:
                    rep.bad(name + ':progress', 'fails: every round of the search tries a step between zero and the one before (%s)' % lo.why, sm.prog.where(L.line))
                elif sub_ is True:
                    rep.ok(name + ':progress: every round of the search tries a step between zero and the one before')
                else:
                    rep.und(name + ':progress', lo.why)
            if held and len(L.paths) == len(L.updates[Hn[2]][2]):
                rep.bad(name + ':progress', 'fails: every round of the search tries another step (it stays the same)', sm.prog.where(L.line))
            else:
                rep.ok(name + ':progress: every round of the search tries another step')
        b = lo.bounded(H, loops, st.facts)
        if b is False:
            rep.bad(name + ':within', 'fails: the step handed back lies within the one given (%s)' % lo.why, sm.where)
        elif b is None:
            rep.und(name + ':within', lo.why)
        else:
            rep.ok(name + ':within: the step handed back lies within the one given')
        if not looks and crit is not None:
            rep.bad(name + ':looks', 'fails: the event functions are looked at', sm.where)
            return
        if not looks:
            if ret == TRUE:
                rep.bad(name + ':none', 'fails: a locator that looks for nothing reports nothing', sm.where)
            elif ret == FALSE:
                rep.ok(name + ':none: a locator that looks for nothing reports nothing')
            else:
                rep.und(name, 'reports without looking')
            continue
        if crit is None:
            rep.und(name, 'a locator of a new kind')
            continue
        if ret not in (TRUE, FALSE):
            r = norm(ret) if ret else None
            if r and r[0] == 'elt' and isnum(r[2]) and (norm(r[1]) == norm(st.mem.get(('arr', lo.ev), ('a0', lo.ev))) or r[1][0] == 'ap' and r[1][1] == 'lam'):
                rep.bad(name + ':flags', 'fails: an event is reported when any flag is set (only flag %s is looked at)' % fmt(r[2]), sm.where)
                continue
            rep.und(name + ':flags', 'returns %s' % (fmt(ret)[:60] if ret else 'nothing'))
            continue
        flags_rule(lo, st, ret, loops, crit, name)
