"""N01-N04: integrators and interpolation.

The engine turns the loops over the state variables into array terms, so one step of an integrator is a
polynomial in the step size, the starting state and the derivatives.  The rules read the coefficients of
that polynomial and decide the algebraic conditions (order conditions, Hermite conditions, the
trapezoidal equation) exactly, over the rationals.
"""
from rulelib import *

F = Fraction
EXPL = ('adevs::rk_45', 'adevs::corrected_euler')


# ------------------------------------------------------------------ terms
def norm(t, rng=None):
    """drops memory epochs, resolves elements of arrays; rng is the range of the array the term is the body of"""
    def f(x):
        if x[0] == 'ld' and len(x) == 3:
            l = x[1]
            if l[0] == 'obj' and l[1][0] == 'ap':
                return norm(l[1], rng)
            return ('ld', norm(l, rng))
        if x[0] == 'a0' and len(x) == 3:
            return ('a0', norm(x[1], rng))
        if x[0] == 'elt':
            return elem(norm(x[1], rng), norm(x[2], rng), rng)
        if islam(x):
            s, e, b, base = ap_payload(x)
            s, e, base = norm(s, rng), norm(e, rng), norm(base, rng)
            return ap('lam', s, e, norm(b, (s, e)), base)
        return None
    return subst(t, f)


def elem(A, i, rng=None):
    r = elt(A, i, rng)
    if r[0] == 'elt' and r[1][0] == 'ap' and r[1][1] == 'lam' and r[2][0] == 'ix' and r[2][1] in T.LOOPRANGE:
        s, e, body, base = ap_payload(r[1])
        s2, e2 = T.LOOPRANGE[r[2][1]]
        if norm(s) == norm(s2) and norm(e) == norm(e2):
            return norm(T.inst(body, r[2]))
    return r


def islam(A):
    return A[0] == 'ap' and A[1] == 'lam'


def dims(cx):
    """the term for the number of state variables, as a test"""
    p = cx.prog('solvers')
    names = set()
    for f in p.find('adevs::ode_system', 'numVars'):
        for s in cx.summary('solvers', f, 'solver').normal():
            o = s.out[1] if s.out else None
            if o is not None and o[0] == 'ld' and o[1][0] == 'f':
                names.add(o[1][2])
    if not names:
        raise Undecided('numVars is computed')
    def isN(t):
        return t is not None and t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in names and contains(t[1][1], lambda y: y[0] in ('ld', 'this', 'p', 'obj', 'ret'))
    isN.names = names
    return isN


def full(A, isN):
    """an array filled over the whole state: (body, base), 'part' when provably not the whole, None when unknown"""
    if not islam(A):
        return None
    s, e, body, base = ap_payload(A)
    s, e = norm(s), norm(e)
    if s == num(0) and isN(e):
        return norm(body, (s, e)), norm(base)
    if all(len(m) == 1 and isN(m[0][0]) for q in (s, e) for m in to_poly(q) if m != ()):
        # both ends are linear in the number of variables
        return 'part'
    if all(len(m) == 1 and m[0][1] == 1 and (isN(m[0][0]) or sibling(m[0][0], isN)) for q in (s, e) for m in to_poly(q) if m != ()):
        # another count of the same system
        return 'part'
    vs = [(at_n(s, isN, n), at_n(e, isN, n)) for n in (1, 2, 3)]
    if all(a is not None and b is not None for a, b in vs) and any((a, b) != (0, n) for (a, b), n in zip(vs, (1, 2, 3))):
        return 'part'
    return None


def at_n(t, isN, n):
    """a count when the system has n variables"""
    if isnum(t):
        return t[1]
    if isN(t):
        return F(n)
    if t[0] == 'c' and t[1] in ('sizeof(double)', 'sizeof(bool)'):
        return F(8 if 'double' in t[1] else 1)
    if t[0] == 'idiv':
        a, b = at_n(norm(t[1]), isN, n), at_n(norm(t[2]), isN, n)
        return None if a is None or not b else F(int(a / b))
    if t[0] == 'poly':
        x = F(0)
        for m, c in to_poly(t).items():
            for z, k in m:
                u = at_n(norm(z), isN, n)
                if u is None or (u == 0 and k < 0) or k != int(k):
                    return None
                c = c * u ** int(k)
            x += c
        return x
    return None


def sibling(t, isN):
    """another field of the system that counts the variables"""
    return t[0] == 'ld' and t[1][0] == 'f' and contains(t[1][1], lambda y: y[0] == 'ld') and isN.names and any(isN(('ld', ('f', t[1][1], n))) for n in isN.names) and not isN(t)


def fnames(f, prog):
    return [('p', x['n'], i) for i, x in enumerate(f['params'])]


def trial_fn(cx, cls):
    """the function that computes a trial step"""
    p = cx.prog('solvers')
    fs = p.find(cls, 'trial_step')
    if fs:
        return fs
    c = [f for (b, n), l in p.byq.items() if b == cls for f in l
         if n not in ('integrate', 'advance') and len(f['params']) == 1 and p.t(f['params'][0]['t']) in ('double', 'const double') and p.t(f['rt']) == 'double' and not f.get('isctor')]
    if not c:
        raise Undecided('the trial step of %s is not a function of its own' % cls)
    return c


# ------------------------------------------------------------------ order conditions
def trees(n, memo={}):
    """rooted trees with n vertices as sorted tuples of subtrees"""
    if n not in memo:
        out = set()

        def forests(k, maxlist):
            if k == 0:
                yield ()
                return
            for m in range(k, 0, -1):
                for t in trees(m):
                    for rest in forests(k - m, None):
                        yield tuple(sorted((t,) + rest))
        for fo in forests(n - 1, None):
            out.add(fo)
        memo[n] = sorted(out)
    return memo[n]


def size(t):
    return 1 + sum(size(s) for s in t)


def density(t):
    d = size(t)
    for s in t:
        d *= density(s)
    return d


def weight(t, A, n):
    v = [F(1)] * n
    for s in t:
        w = weight(s, A, n)
        v = [x * sum(A[i].get(j, 0) * w[j] for j in range(n)) for i, x in enumerate(v)]
    return v


def order(A, b, upto):
    """highest order p <= upto whose conditions all hold"""
    n = len(A)
    for p in range(1, upto + 1):
        for t in trees(p):
            w = weight(t, A, n)
            if sum(b.get(i, 0) * w[i] for i in range(n)) != F(1, density(t)):
                return p - 1
    return upto


# ------------------------------------------------------------------ N01
class Stages:
    def __init__(self, base, step, isN):
        self.base, self.step, self.isN = base, step, isN
        self.idx, self.A = {}, []
        self.why = None
        self.written = ()
        self.scratch = lambda A: False

    def state(self, X):
        """coefficients of the stages in a state the derivative is taken at"""
        X = norm(X)
        if X == self.base:
            return {}
        r = full(X, self.isN)
        if r == 'part':
            raise Bad('a derivative is taken at a state of which only part is set')
        if r is None:
            raise Undecided('a derivative is taken at %s' % fmt(X)[:120])
        return self.comb(r[0], 1)

    def comb(self, body, lead):
        """base*lead + sum of step*stage, coefficients of the stages"""
        out = {}
        got = F(0)
        for m, c in to_poly(body).items():
            el = [(x, k) for x, k in m if x[0] == 'elt']
            rest = [(x, k) for x, k in m if x[0] != 'elt']
            if len(el) != 1 or el[0][1] != 1 or el[0][0][2] not in (T.BIND,) and el[0][0][2][0] != 'ix':
                if self.known(body):
                    raise Bad('a state has the form %s' % fmt(body)[:160])
                raise Undecided('a state has the form %s' % fmt(body)[:120])
            A = el[0][0][1]
            if A == self.base:
                if rest:
                    if self.known(body):
                        raise Bad('the start state is scaled by %s' % fmt(mk_poly({tuple(rest): F(1)})))
                    raise Undecided('the start state is scaled')
                got += c
            else:
                s = self.stage(A)
                if rest != [(self.step, 1)]:
                    if all(x == self.step for x, _ in rest) or not rest:
                        raise Bad('a stage enters with the step size to the power %s' % (rest[0][1] if rest else 0))
                    raise Undecided('a stage is scaled by %s' % fmt(mk_poly({tuple(rest): F(1)})))
                out[s] = out.get(s, F(0)) + c
        if got != lead:
            raise Bad('the start state enters %s times' % got)
        return out

    def known(self, body):
        """made of nothing but states, derivatives and the step size"""
        ok = lambda A: A == self.base or A[0] == 'ap' and A[1].startswith('out:der_func:1') or islam(A) and \
            full(A, self.isN) is not None and all(ok2(x) for m in to_poly(ap_payload(A)[2]) for x, _ in m)
        ok2 = lambda x: x[0] == 'poly' and all(ok2(y) for m, _ in x[1] for y, _ in m) or x[0] == 'elt' and ok(x[1]) and (x[2] == T.BIND or x[2][0] == 'ix' or is_poly_like(x[2]) and all(y == T.BIND or self.isN(y) for m in to_poly(x[2]) for y, _ in m)) \
            or x == self.step or self.isN(x)
        return all(ok2(x) for m in to_poly(body) for x, _ in m)

    def stage(self, A):
        if A in self.idx:
            return self.idx[A]
        if not (A[0] == 'ap' and A[1].startswith('out:der_func:1')):
            if A[0] == 'a0' and any(norm(l) == norm(A[1]) for l in self.written):
                raise Bad('a state is formed from what %s holds before the step' % fmt(A)[:60])
            if full(A, self.isN) == 'part':
                raise Bad('a state is formed from an array of which only part is set: %s' % fmt(A)[:60])
            if A[0] == 'a0' and A != self.base and self.scratch(A):
                raise Bad('a state is formed from what %s holds, and nothing sets it' % fmt(A)[:60])
            raise Undecided('a state contains %s' % fmt(A)[:120])
        row = self.state(ap_payload(A)[1])
        self.idx[A] = len(self.A)
        self.A.append(row)
        return self.idx[A]


class Bad(Exception):
    pass


def unset(cx, f):
    """is an array the object keeps set by no function but the given one and the constructors? (elements set, copied to, or passed on)"""
    p = cx.prog('solvers')

    def names(t):
        out = set()
        contains(t, lambda x: out.add(x[2]) if x[0] == 'f' and isinstance(x[2], str) else None)
        return out
    used = set()
    for g in p.fn.values():
        if g.get('clsb') != f['clsb'] or g is f or g.get('isctor') or g.get('isdtor') or not g.get('body'):
            continue
        if g['n'] == f['n']:
            continue
        fields(g['body'], used)

    def h(A):
        n = names(A[1])
        return bool(n) and not (n & used)
    return h


def fields(n, out):
    if isinstance(n, dict):
        if n.get('k') == 'mem':
            out.add(n.get('f'))
        for v in n.values():
            fields(v, out)
    elif isinstance(n, list):
        for v in n:
            fields(v, out)


def err_terms(st, loop_out, sm, isN):
    """terms e such that the reported error is the maximum of |e| over the loop; (Loop, [e])"""
    if loop_out[0] != 'phi':
        return None
    L = next((e.x for e, *_ in walk(st.trace) if e.k == 'loop' and e.x.id == loop_out[1]), None)
    if L is None or loop_out[2] not in L.updates:
        return None
    init, term, ups = L.updates[loop_out[2]]
    if not isnum(init):
        return None
    if init[1] > 0:
        raise Bad('the error starts at %s' % init[1])
    out = []
    phi = loop_out
    kept = []
    ph = norm(phi)
    for p, v in ups:
        v = norm(v)
        facts = {subst(a, lambda x: None): s for a, s in p.facts.items()}
        if v[0] == 'ap' and v[1] == 'max':
            pl = [norm(x) for x in ap_payload(v)]
            if ph not in pl or len(pl) != 2:
                raise Bad('the error does not keep the largest value')
            out.append(pl[0] if pl[1] == ph else pl[1])
        elif v == ph:
            kept.append(facts)
        else:
            g = [(a, s) for a, s in facts.items() if a[0] == 'pos' and contains(a, lambda y: y == phi)]
            ok = False
            for a, s in g:
                d = norm(a[1])
                d1, d2 = sub(v, ph), sub(ph, v)
                if (d == d1 and s) or (d == d2 and not s):
                    ok = True
            if not ok:
                if not g:
                    raise Bad('the error does not keep the largest value')
                raise Undecided('the error is replaced under another condition')
            out.append(v)
    # kept: must be because it is not smaller than the estimate
    for facts in kept:
        ds = [sub(e, ph) for e in out] + [sub(ph, e) for e in out]
        n = len(out)
        if any(a[0] == 'pos' and ((norm(a[1]) in ds[:n] and not w) or (norm(a[1]) in ds[n:] and w)) for a, w in facts.items()):
            continue
        g = [(a, w) for a, w in facts.items() if a[0] not in ('complete', 'done')]
        if out and all(own(a, ph, isN) for a, _ in g):
            raise Bad('the error of some variables is passed over whatever it is')
        raise Undecided('the error is kept for another reason (%s)' % '; '.join(fmt_lit(a, w)[:80] for a, w in g))
    return (L, out) if out else None


def own(a, ph, isN):
    """a condition on the position and the error so far only"""
    if a[0] not in ('pos', 'ipos', 'zero', 'eq', 'lt'):
        return False
    for t in a[1:]:
        for m in to_poly(norm(t)):
            for x, _ in m:
                if x != ph and x[0] != 'ix' and x != T.BIND and not isN(x):
                    return False
    return True


def N01(cx, rep):
    """array terms of one trial step; coefficients checked against the order conditions (rooted trees) over the rationals"""
    isN = dims(cx)
    for cls, want, emb in (('adevs::rk_45', 5, 4), ('adevs::corrected_euler', 2, 1)):
        name = cls.split('::')[1]
        if not cx.prog('solvers').recb.get(cls):
            raise Broken(cls + ' is gone')
        try:
            for f in trial_fn(cx, cls):
                step_rule(cx, rep, f, name, isN, want, emb)
        except Undecided as e:
            rep.und(name, str(e))


def step_rule(cx, rep, f, name, isN, want, emb):
    sm = cx.summary('solvers', f, 'solver').use(rep)
    where = sm.where
    step = ('p', f['params'][0]['n'], 0)
    qq = role(sm.prog, f['clsb'], 'qq', r'^\x00')
    for st in sm.normal():
        sol = [(k, v) for k, v in st.mem.items() if k[0] == 'arr' and norm(k[1]) == ('ld', ('f', ('this',), qq))]
        if not sol:
            if any(e.k == 'call' and e.name == 'der_func' for e in st.trace):
                rep.und(name, 'the solution is kept elsewhere')
            else:
                rep.bad(name + ':advance', 'fails: a trial step advances the trial state', where)
            continue
        S = norm(sol[0][1])
        r = full(S, isN)
        if r == 'part':
            rep.bad(name + ':all', 'fails: every state variable is advanced (%s)' % fmt(S)[:60], where)
            continue
        if r is None:
            rep.und(name, 'the solution has the form %s' % fmt(S)[:100])
            continue
        body, base = r
        if base[0] == 'a0' and base == S and any(e.k == 'call' and e.name == 'der_func' for e in st.trace):
            rep.bad(name + ':advance', 'fails: every state variable is advanced (the trial state stays the same)', where)
            continue
        if base[0] == 'ap' and base[1].startswith('out:der_func:1'):
            rep.bad(name + ':state', 'fails: a step starts from the trial state (it is overwritten by a derivative)', where)
            continue
        if base[0] != 'a0':
            # overwritten in several rounds
            rep.und(name, 'the solution is built in several rounds')
            continue
        if any(not vagueless(a) for a in st.facts):
            rep.und(name, 'depends on conditions')
            continue
        try:
            G = Stages(base, step, isN)
            G.scratch = unset(cx, f)
            G.written = [k[1] for k, v in st.mem.items() if k[0] == 'arr' and v[0] != 'a0']
            b = G.comb(body, 1)
        except Bad as e:
            rep.bad(name + ':state', 'fails: a step is a Runge-Kutta step (%s)' % e, where)
            continue
        rep.ok('%s:all: every state variable is advanced' % name)
        p = order(G.A, b, want)
        tab = 'b = (%s), %d stages' % (', '.join(str(b.get(i, 0)) for i in range(len(G.A))), len(G.A))
        if p < want:
            rep.bad(name + ':order', 'fails: one step is accurate of order %d (the order conditions hold only up to order %d; %s)' % (want, p, tab), where)
        else:
            rep.ok('%s:order: one step is accurate of order %d, %d order conditions (%s)' % (name, want, sum(len(trees(i)) for i in range(1, want + 1)), tab))
        # the error estimate
        o = st.out[1] if st.out and st.out[0] == 'ret' else None
        if o is None:
            rep.und(name + ':error', 'no error')
            continue
        if isnum(o):
            rep.bad(name + ':error', 'fails: the error estimate is that of an embedded solution (it is always %s)' % o[1], where)
            continue
        try:
            r = err_terms(st, o, sm, isN)
            if r is None:
                rep.und(name + ':error', 'the error has the form %s' % fmt(o)[:100])
                continue
            L, es = r
            rg = [norm(x) for x in L.range] if L.range else None
            if rg is None or not L.regular:
                rep.und(name + ':error:all', 'the traversal has another form')
            elif rg[0] == num(0) and isN(rg[1]):
                rep.ok('%s:error:all: the error of every state variable is considered' % name)
            elif all(is_poly_like(x) and all(m == () or isN(m[0][0]) for m in to_poly(x)) for x in rg):
                rep.bad(name + ':error:all', 'fails: the error of every state variable is considered (from %s to %s)' % tuple(map(fmt, rg)), where)
            else:
                rep.und(name + ':error:all', 'the traversal runs from %s to %s' % tuple(map(fmt, rg)))
            for e in es:
                error_rule(rep, G, b, e, name, want, emb, where)
        except Bad as e:
            rep.bad(name + ':error', 'fails: the error is the largest estimate of all state variables (%s)' % e, where)


def vagueless(a):
    """loop bookkeeping facts do not count"""
    return a[0] in ('complete', 'done') or not contains(a, lambda y: y[0] in ('unk',)) and (contains(a, lambda y: y[0] in ('ix', 'phi')) or True)


def error_rule(rep, G, b, e, name, want, emb, where):
    key = name + ':error'
    if e[0] == 'ap' and e[1] == 'abs':
        e = ap_payload(e)[0]
    elif e[0] == 'poly' and len(e[1]) == 1 and len(e[1][0][0]) == 1 and e[1][0][0][0][0][0] == 'ap' and e[1][0][0][0][0][1] == 'abs':
        k = e[1][0][1]
        e = scale(ap_payload(e[1][0][0][0][0])[0], k)
    else:
        if is_poly_like(e) and not vague(subst(e, lambda x: num(0) if x[0] == 'phi' else None)):
            rep.bad(key + ':abs', 'fails: the size of the estimate counts, whatever its sign', where)
        else:
            rep.und(key, 'the estimate has the form %s' % fmt(e)[:100])
        return
    e = norm(e)
    # the solution itself may enter (difference of two solutions)
    try:
        n0 = len(G.A)
        d = G.comb(e, 0)
    except Undecided as x:
        rep.und(key, str(x))
        return
    for sg in (1, -1):
        bh = {i: b.get(i, F(0)) - sg * d.get(i, F(0)) for i in range(len(G.A))}
        p = order(G.A, bh, want)
        if p >= emb and any(d.values()):
            # the embedded solution leaves out stages of the solution, otherwise it is a blend that understates the error
            if any(b.get(i, 0) != 0 and bh[i] == 0 for i in range(len(G.A))):
                rep.ok('%s: the estimate is the distance to an embedded solution of order %d' % (key, p))
                return
    if not any(d.values()):
        rep.bad(key, 'fails: the error estimate is the distance to an embedded solution (it is always zero)', where)
    else:
        rep.bad(key, 'fails: the error estimate is the distance to an embedded solution of order %d (weights %s)'
                % (emb, ', '.join(str(d.get(i, 0)) for i in range(len(G.A)))), where)


# ------------------------------------------------------------------ N02
def m_trial(qq):
    def h(eng, n, st):
        out = []
        for s, o in eng.objptr(n, st):
            for s1, hv in (eng.ev(n['args'][0], s) if not s.out else [(s, UNDEF)]):
                if s1.out:
                    out.append((s1, UNDEF))
                    continue
                ptr = eng.read(s1, ('f', o, qq))
                loc, off = eng.arrloc(ptr)
                A = s1.mem.get(loc)
                if A is None:
                    A = eng.initial(s1, loc)
                s1.mem[loc] = ap('trial', A, hv)
                e = ap('trialerr', A, hv)
                s1.ev(Ev('call', name='trial_step', cls='', obj=o, args=(Arg((hv, None, None)),), ret=e, line=n.get('l'), fn=s1.fr.fn))
                out.append((s1, e))
        return out
    return h


def upper(t):
    """terms that t is not above"""
    t = norm(t)
    out = [t]
    if t[0] == 'ap' and t[1] == 'min':
        for x in ap_payload(t):
            out += upper(x)
    return out


def leq(t, u, facts):
    """facts (linear, as differences) show that t is not above u"""
    F_ = []
    for a, s in facts.items():
        if a[0] in ('pos', 'zero'):
            d = norm(a[1])
            if a[0] == 'pos':
                F_.append(neg(d) if s else d)      # not above zero
            elif s:
                F_ += [d, neg(d)]
    F_ = list(dict.fromkeys(F_))

    def go(p, left):
        if isnum(p):
            return p[1] <= 0
        if not left:
            return False
        q = to_poly(p)
        m = next(x for x in q if x != ())
        for g in F_:
            c = to_poly(g).get(m)
            if c is not None and (c > 0) == (q[m] > 0):
                if go(sub(p, scale(g, q[m] / c)), left - 1):
                    return True
        return False
    return go(sub(t, u), 4)


def N02(cx, rep):
    """path summaries of integrate and advance around the trial step: acceptance, retry, limits, what is written back, what is returned"""
    isN = dims(cx)
    p = cx.prog('solvers')
    for cls in EXPL:
        name = cls.split('::')[1]
        need(p, cls, 'integrate')
        need(p, cls, 'advance')
        try:
            tf = trial_fn(cx, cls)
            qq = role(p, cls, 'qq', r'^\x00')
            cfg = M.solver()
            cfg.opaque = {x for x in cfg.opaque if x[1] != 'integrate'} - {(cls, t['n']) for t in tf}
            for t in tf:
                cfg.models[(cls, t['n'])] = m_trial(qq)
            for f in p.find(cls, 'integrate'):
                sm = cx.summary('solvers', f, 'solver:' + name, cfg=cfg).use(rep)
                for st in sm.normal():
                    accept(rep, sm, st, f, name, isN, qq)
                if not sm.normal():
                    if not sm.states:
                        rep.bad(name + ':returns', 'fails: a step is accepted some time (no way leads out of integrate)', sm.where)
                    else:
                        rep.und(name, 'integrate does not return')
        except Undecided as e:
            rep.und(name + ':integrate', str(e))
    for cls in EXPL + ('adevs::trap',):
        name = cls.split('::')[1]
        for f in need(p, cls, 'advance'):
            try:
                advance_rule(cx, rep, f, name)
            except Undecided as e:
                rep.und(name + ':advance', str(e))
    try:
        trap_limits(cx, rep, isN)
    except Undecided as e:
        rep.und('trap:integrate', str(e))


def loops_in(trace):
    return [e.x for e, *_ in walk(trace) if e.k == 'loop']


def accept(rep, sm, st, f, name, isN, qq):
    q, lim = fnames(f, sm.prog)[:2]
    key = name + ':integrate'
    ret = st.out[1] if st.out and st.out[0] == 'ret' else None
    calls = [e for e in st.trace if e.k == 'call' and e.name == 'trial_step']
    arr = st.mem.get(('arr', q))
    if ret is None:
        rep.und(key, 'returns nothing')
        return
    if not calls:
        # an early return that takes no step
        if arr is None and (norm(ret) == num(0) or any(a[0] == 'zero' and s and norm(a[1]) in (norm(ret), neg(norm(ret))) for a, s in st.facts.items())):
            rep.ok(key + ':none: no step is taken, the state stays')
        else:
            rep.und(key, 'returns without a trial step')
        return
    if len(calls) != 1:
        rep.und(key, 'several trial steps on a path')
        return
    c = calls[0]
    h = norm(val(c.args[0]))
    # what the trial started from, what it gave
    err = norm(c.ret)
    A = norm(ap_payload(c.ret)[0])
    at = sm.at(c)

    def isq(X):
        """the caller's state as it was passed in"""
        if X == ('a0', q):
            return True
        r = full(X, isN)
        if r == 'part':
            return 'part'
        if r is None:
            return None
        return r[0] == ('elt', ('a0', q), T.BIND)
    g = isq(A)
    if g is True:
        rep.ok(key + ':start: every trial starts from the unchanged initial state')
    elif g == 'part':
        rep.bad(key + ':start', 'fails: every trial starts from the unchanged initial state (only part of it is copied)', at)
    elif contains(A, lambda y: y[0] == 'ap' and y[1] == 'trial') or A[0] == 'aphi' or (A[0] == 'a0' and A != ('a0', q)):
        rep.bad(key + ':start', 'fails: every trial starts from the unchanged initial state (it starts from %s)' % fmt(A)[:80], at)
    else:
        rep.und(key + ':start', 'the trial starts from %s' % fmt(A)[:100])
    # result
    want = ('elt', ap('trial', ap_payload(c.ret)[0], val(c.args[0])), T.BIND)
    r = norm(arr) if arr is not None else None
    if r is None:
        rep.bad(key + ':result', 'fails: the state passed in is replaced by the solution of the step (it is not written)', sm.where)
    else:
        fr = full(r, isN)
        if fr == 'part':
            rep.bad(key + ':result', 'fails: the state passed in is replaced by the solution of the step (only part of it)', sm.where)
        elif r == norm(want[1]) or (fr is not None and fr[0] == norm(want)):
            rep.ok(key + ':result: the state passed in is replaced by the solution of the accepted trial')
        elif fr is not None and not contains(fr[0], lambda y: y[0] in ('unk', 'afin')):
            rep.bad(key + ':result', 'fails: the state passed in is replaced by the solution of the step (%s)' % fmt(fr[0])[:100], sm.where)
        else:
            rep.und(key + ':result', 'the state becomes %s' % fmt(r)[:100])
    # returned step
    rr = norm(ret)
    if rr == h:
        rep.ok(key + ':returns: the step that was taken is returned')
    elif not vague(rr) and (is_poly_like(rr) or simple(rr) or rr[0] == 'phi') and not leq_both(rr, h, st.facts):
        rep.bad(key + ':returns', 'fails: the step that was taken is returned (%s instead of %s)' % (fmt(rr)[:60], fmt(h)[:60]), sm.where)
    else:
        rep.und(key + ':returns', 'returns %s' % fmt(rr)[:100])
    # acceptance
    tol = None
    acc = None
    for a, s in st.facts.items():
        if a[0] == 'pos' and contains(norm(a[1]), lambda y: y == err):
            d = norm(a[1])
            co = to_poly(d).get(((err, 1),))
            if co is None:
                mm = [m for m in to_poly(d) if any(x == err for x, _ in m)]
                if len(mm) == 1 and (err, 1) in mm[0] and not any(contains(x, lambda y: y == err) for m in to_poly(d) for x, _ in m if x != err):
                    acc = acc or ('product', mk_poly({mm[0]: F(1)}))
                else:
                    acc = acc or 'other'
                continue
            rest = scale(sub(d, scale(err, co)), -1 / co)
            low = (co < 0) == s          # err below rest
            if low and rest[0] == 'ld' and rest[1][0] == 'f' and rest[1][1] == ('this',) and 'tol' in rest[1][2]:
                acc = True
            elif low:
                acc = acc or ('scaled', rest)
            else:
                acc = acc or 'above'
    if acc is True:
        rep.ok(key + ':accept: a step is accepted only when its error is within the tolerance')
    elif acc == 'above':
        rep.bad(key + ':accept', 'fails: a step is accepted only when its error is within the tolerance (it is accepted above it)', at)
    elif acc is None:
        if any(contains(a, lambda y: y[0] == 'ap' and y[1] == 'trialerr') for a in st.facts):
            rep.und(key + ':accept', 'another test')
        else:
            rep.bad(key + ':accept', 'fails: a step is accepted only when its error is within the tolerance (its error is not looked at)', at)
    elif acc == 'other':
        rep.und(key + ':accept', 'another test')
    elif acc[0] == 'product':
        rep.bad(key + ':accept', 'fails: a step is accepted only when its error is within the tolerance (%s is compared with it)' % fmt(acc[1])[:80], at)
    else:
        rest = acc[1]
        tolf = [x for x in subterms(rest, lambda y: y[0] == 'ld' and y[1][0] == 'f' and 'tol' in y[1][2])]
        k = to_poly(rest).get(((tolf[0], 1),)) if len(tolf) == 1 else None
        if k is not None and len(to_poly(rest)) == 1:
            if k <= 1:
                rep.ok(key + ':accept: a step is accepted only when its error is within the tolerance')
            else:
                rep.bad(key + ':accept', 'fails: a step is accepted only when its error is within the tolerance (up to %s times)' % k, at)
        else:
            rep.und(key + ':accept', 'the error is compared with %s' % fmt(rest)[:80])
    # limits and retries
    limits(rep, sm, st, h, lim, key, name, err, q)


def leq_both(a, b, facts):
    return leq(a, b, facts) and leq(b, a, facts)


def hmax_of(t):
    return t[0] == 'ld' and t[1][0] == 'f' and t[1][1] == ('this',) and re.search(r'h_?max|max_?(h|step)', t[1][2])


def limits(rep, sm, st, h, lim, key, name, err, q):
    L = None
    start = h
    if h[0] == 'phi':
        L = next((x for x in loops_in(st.trace) if x.id == h[1]), None)
        ploc = h[2]
        if L is None or ploc not in L.updates:
            rep.und(key + ':limit', 'the step comes from a loop of another form')
            return
        start = L.updates[ploc][0]
    ups = upper(start)
    fields = [norm(x) for a in st.facts for x in subterms(a, lambda y: y[0] == 'ld')]
    lims = [t for t in dict.fromkeys(fields + [lim] + [y for x in ups for y in subterms(x, lambda y: y[0] == 'ld')])]
    for what, test in (('the limit of the caller', lambda t: t == lim), ('the configured maximum', lambda t: bool(hmax_of(t)))):
        if any(test(t) for t in ups) or any(test(u) and leq(t, u, st.facts) for u in lims for t in ups):
            rep.ok('%s:limit: a step does not exceed %s' % (key, what))
        elif all(simple(t) for t in ups):
            rep.bad('%s:limit:%s' % (key, what.split()[-1]), 'fails: a step does not exceed %s (it starts with %s)' % (what, fmt(start)[:80]), sm.where)
        else:
            rep.und('%s:limit' % key, 'the first step is %s' % fmt(start)[:100])
    if L is None:
        return
    # each retry
    init, term, upd = L.updates[ploc]
    phi = norm(h)
    wh = sm.prog.where(L.line)
    if not upd:
        rep.und(key + ':retry', 'no retries')
    for p, v in upd:
        v = norm(v)
        ok = None
        q_ = to_poly(v)
        cl = [e for e in p.trace if e.k == 'call' and e.name == 'trial_step']
        if v == phi:
            ok = False
            why = 'the step stays the same'
        elif len(q_) == 1 and ((phi, 1),) in q_:
            k = q_[((phi, 1),)]
            ok = 0 < k < 1
            why = 'the step is multiplied by %s' % k
        else:
            why = fmt(v)[:80]
            rel = None
            for a, s in p.facts.items():
                if a[0] == 'pos':
                    d = norm(a[1])
                    if d == sub(v, phi):
                        rel = 'above' if s else 'below'
                    elif d == sub(phi, v):
                        rel = 'below' if s else 'above'
            if rel == 'below' or phi in [x for x in upper(v)]:
                ok = True
            elif any(less(x, phi) for x in upper(v)):
                ok = True
            elif rel == 'above':
                ok = False
            else:
                ok = shrinks(v, phi, p.facts, err_of(cl))
                if ok is False:
                    why = 'the step becomes %s' % fmt(v)[:80]
        if ok:
            rep.ok('%s:retry: a rejected step is retried with a smaller one (%s)' % (key, why))
        elif ok is False:
            rep.bad('%s:retry' % key, 'fails: a rejected step is retried with a smaller one (%s)' % why, wh)
        else:
            rep.und('%s:retry' % key, why)
        # the caller's state is left alone while retrying
        touched = [e for e in events(p.trace) if e.k in ('wr', 'touch', 'bulk') and e.obj is not None and e.obj[0] in ('el', 'arr') and norm(e.obj[1]) == q]
        if touched:
            rep.bad('%s:retry:state' % key, 'fails: a rejected trial leaves the state alone', sm.at(touched[0]))
        else:
            rep.ok('%s:retry:state: a rejected trial leaves the state alone' % key)


def is_scaled(t, test):
    q = to_poly(t)
    return len(q) == 1 and any(len(m) == 1 and m[0][1] == 1 and test(m[0][0]) and c > 1 for m, c in q.items())


def simple(t):
    """built from fields, parameters and numbers by min and max"""
    if t[0] in ('num', 'p') or (t[0] == 'ld' and t[1][0] == 'f'):
        return True
    if t[0] == 'ap' and t[1] in ('min', 'max'):
        return all(simple(norm(x)) for x in ap_payload(t))
    if t[0] == 'poly':
        return all(simple(x) for m in to_poly(t) for x, _ in m)
    return False


def less(x, phi):
    q = to_poly(x)
    return len(q) == 1 and ((phi, 1),) in q and 0 < q[((phi, 1),)] < 1


def err_of(cl):
    return norm(cl[-1].ret) if cl else None


def shrinks(v, phi, facts, err):
    """c * h * (tol/err)^r with err above tol: c decides"""
    q = to_poly(v)
    if len(q) != 1:
        return None
    (m, c), = q.items()
    hs = [k for x, k in m if x == phi]
    if hs == [1]:
        rest = [(x, k) for x, k in m if x != phi]
        den = [x for x, k in rest if k == -1]
        numr = [x for x, k in rest if k == 1]
        if len(den) == 1 and len(numr) == 1 and err is not None and contains(den[0], lambda y: y == err) and numr[0][0] == 'ld' and 'tol' in str(numr[0][1]):
            return True if 0 < c <= 1 else None
        if len(den) == 1 and len(numr) == 1 and err is not None and contains(numr[0], lambda y: y == err):
            return False if c >= 1 else None
    return None


def advance_rule(cx, rep, f, name):
    sm = cx.summary('solvers', f, 'solver').use(rep)
    q, H = fnames(f, sm.prog)[:2]
    key = name + ':advance'
    recursive = any(e.k == 'call' and e.name == 'advance' for st in sm.states for e in events(st.trace))
    for st in sm.normal():
        ls = [e.x for e in st.trace if e.k == 'loop']
        calls = [e for e in st.trace if e.k == 'call' and e.name == 'integrate']
        if not ls:
            # a single step: only when it is known to cover the interval
            if not calls:
                ok = any(a[0] in ('pos', 'ipos', 'zero') and contains(a, lambda y: y == H) for a in st.facts)
                if ok:
                    rep.ok(key + ': nothing to do for an empty interval')
                else:
                    rep.bad(key, 'fails: advancing covers the interval (no step is taken)', sm.where)
                continue
            if len(calls) == 1:
                rem = sub(norm(val(calls[0].args[1])), norm(calls[0].ret))
                if covered(st.facts, rem):
                    rep.ok(key + ': a single step that covers the interval')
                elif not recursive and not any(vague(a) for a in st.facts):
                    rep.bad(key, 'fails: advancing covers the interval (it takes a single step, which may be shorter)', sm.where)
                else:
                    rep.und(key, 'a single step')
            else:
                rep.und(key, '%d steps' % len(calls))
            continue
        if len(ls) != 1:
            rep.und(key, 'several loops')
            continue
        L = ls[0]
        if L.kind not in ('while', 'for', 'index', 'do'):
            rep.und(key, 'a loop of another kind')
            continue
        one_advance(rep, sm, st, L, calls, q, H, key)


def precise(v):
    if v[0] in ('num', 'p', 'phi') or (v[0] == 'ld' and v[1][0] == 'f') or (v[0] == 'ret' and v[1] == 'integrate'):
        return True
    return v[0] == 'poly' and all(precise(x) for m in to_poly(v) for x, _ in m)


def covered(facts, rem):
    """facts say that the remaining interval is not above zero"""
    for a, s in facts.items():
        if a[0] in ('pos', 'ipos'):
            d = norm(a[1])
            if a[0] == 'pos' and ((d == rem and not s) or (d == neg(rem) and s)):
                return True
        if a[0] == 'zero' and s and norm(a[1]) in (rem, neg(rem)):
            return True
    return False


def one_advance(rep, sm, st, L, calls, q, H, key):
    wh = sm.prog.where(L.line)
    # the variable that holds what remains (or what has been covered)
    cand = []
    for loc, (init, term, upd) in L.updates.items():
        if loc[0] != 'arr' and norm(init) in (H, num(0)):
            cand.append((loc, norm(init), norm(term), upd))
    if not L.paths:
        rep.und(key, 'the loop never repeats')
        return
    steps = []
    for p in L.paths:
        cs = [e for e in p.trace if e.k == 'call' and e.name == 'integrate']
        if len(cs) != 1:
            if not cs:
                rep.und(key, 'a round without a step')
            else:
                rep.und(key, 'several steps in a round')
            return
        steps.append((p, cs[0]))
    best = None
    for loc, init, phi, upd in cand:
        good = True
        for p, c in steps:
            v = next((norm(v) for pp, v in upd if pp is p), None)
            if v is None:
                v = next((norm(v) for pp, v in upd if pp == p), None)
            r = norm(c.ret)
            limv = norm(val(c.args[1]))
            if init == H:
                okv, okl = v == sub(phi, r), limv == phi
            else:
                okv, okl = v == add(phi, r), limv == sub(H, phi)
            if not okv or not okl:
                good = False
                best = best or (loc, v, limv, phi, init, okv, okl)
        if good:
            # exits
            rem0 = phi if init == H else sub(H, phi)
            last = [c for c in calls if c.args and norm(val(c.args[1])) == rem0]
            rem = sub(rem0, norm(calls[-1].ret)) if calls else rem0
            if calls and len(calls) > 1:
                rep.und(key, 'several steps after the loop')
                return
            if calls and not last:
                rep.und(key, 'the last step has another limit')
                return
            if covered(st.facts, rem) or covered(st.facts, rem0) and not calls:
                rep.ok(key + ': the steps add up to the interval: each is limited by what remains, and the loop ends when nothing does')
            else:
                fs = [a for a in st.facts if a[0] in ('pos', 'zero')]
                if any(contains(a, lambda y: y == norm(phi) or y == phi) for a in fs) or not fs:
                    rep.bad(key + ':ends', 'fails: advancing ends when the whole interval is covered (it ends with %s)'
                            % ' and '.join(fmt_lit(a, st.facts[a]) for a in fs)[:120], wh)
                else:
                    rep.und(key, 'the loop ends for another reason')
            for p, c in steps:
                if norm(val(c.args[0])) != q:
                    rep.und(key, 'another state is advanced')
                ds = (rem0, sub(rem0, norm(c.ret)))
                more = any(a[0] == 'pos' and (norm(a[1]) in ds and s or neg(norm(a[1])) in ds and not s) and not (neg(norm(a[1])) in ds and not s) for a, s in p.facts.items())
                empty = [(a, s) for a, s in p.facts.items() if a[0] == 'pos' and neg(norm(a[1])) in ds and not s]
                nonzero = any(a[0] == 'zero' and not s and (norm(a[1]) in ds or neg(norm(a[1])) in ds) for a, s in p.facts.items())
                if empty and not more and not nonzero:
                    rep.bad(key + ':ends', 'fails: advancing ends when the whole interval is covered (it goes on when nothing remains)', wh)
            return
    if best:
        loc, v, limv, phi, init, okv, okl = best
        if v is not None and precise(v) and precise(limv):
            if not okl and (limv in (H, phi) or okv):
                rep.bad(key + ':limit', 'fails: every step is limited by what remains of the interval (%s remains, the limit is %s)' % (fmt(phi), fmt(limv)[:60]), wh)
                return
            if okl and not okv:
                rep.bad(key + ':sum', 'fails: the steps add up to the interval (what remains becomes %s)' % fmt(v)[:80], wh)
                return
    if steps and all(norm(val(c.args[1])) == H for p, c in steps):
        rep.bad(key + ':limit', 'fails: every step is limited by what remains of the interval (always by the whole interval)', wh)
        return
    rep.und(key, 'what remains is tracked in another way')


# ------------------------------------------------------------------ N03 (and the limits of trap for N02)
def m_nvdata(eng, n, st):
    return [(s, ap('nvdata', v) if not s.out else UNDEF) for s, v in eng.ev(n['args'][0], st)]


def m_matdata(eng, n, st):
    return [(s, ap('matdata', v) if not s.out else UNDEF) for s, v in eng.ev(n['args'][0], st)]


def m_kinsol(eng, n, st):
    out = []
    for s, vs in eng.evs(n['args'], st):
        if s.out:
            out.append((s, UNDEF))
            continue
        s.n += 1
        y = vs[1]
        loc = ('arr', ap('nvdata', y))
        A = s.mem.get(loc)
        if A is None:
            A = eng.initial(s, loc)
        r = ('ret', 'KINSol', s.n)
        s.ev(Ev('call', name='KINSol', cls='', obj=None, args=tuple(Arg((v, None, None)) for v in vs), ret=r, line=n.get('l'), fn=s.fr.fn,
                x=('snap', dict(s.mem))))
        s.mem[loc] = ap('kinsol', A, ('seq', s.n))
        out.append((s, r))
    return out


def trapcfg():
    c = M.solver()
    c.opaque = {x for x in c.opaque if x != ('adevs::trap', 'integrate')}
    c.models[('', 'N_VGetArrayPointer')] = m_nvdata
    c.models[('', 'SUNDenseMatrix_Data')] = m_matdata
    c.models[('', 'SM_DATA_D')] = m_matdata
    c.models[('', 'KINSol')] = m_kinsol
    return c


def trap_runs(cx, rep, f):
    return cx.summary('solvers', f, 'solver:trap', cfg=trapcfg()).use(rep)


def kin_ok(facts, r):
    """what the facts say about success of a call that reports by a negative value: True, False, None"""
    for a, s in facts.items():
        if a[0] in ('ipos', 'pos') and contains(a[1], lambda y: y == r):
            q = to_poly(a[1])
            c = q.get(((r, 1),))
            if c is None or len(q) > 2:
                continue
            k = -q.get((), F(0)) / c       # r > k  (c > 0)  or r < k
            if c > 0:
                if s and k >= -1:
                    return True
                if not s and k <= 0 and k >= -1:
                    # r <= k
                    return False if k <= -1 else (False if k < 0 else None)
            else:
                if s and k <= 0:
                    return False
                if not s and k >= 0:
                    return True
        if a[0] == 'zero' and contains(a[1], lambda y: y == r):
            q = to_poly(a[1])
            c = q.get(((r, 1),))
            if c is not None and len(q) == 1:
                if s:
                    return True
    return None


def admits(facts, r, vals):
    """the first of the values the result of a call may have on a path whose facts only compare it with numbers; None when there is none or the facts say more"""
    fs = [(a, s) for a, s in facts.items() if contains(a, lambda y: y == r)]
    for v in vals:
        ok = True
        for a, s in fs:
            if a[0] not in ('ipos', 'pos', 'zero') or len(a) != 2:
                return None
            w = norm(subst(a[1], lambda y: num(v) if y == r else None))
            if not isnum(w):
                return None
            t = w[1] == 0 if a[0] == 'zero' else w[1] > 0
            if t != s:
                ok = False
                break
        if ok:
            return v
    return None


def plain_test(facts, r):
    """the result is only compared with numbers, which does not settle its sign"""
    fs = [(a, s) for a, s in facts.items() if contains(a, lambda y: y == r)]
    if fs and all(a[0] in ('ipos', 'pos', 'zero') and (a[1] == r or a[1][0] == 'poly' and all(m == () or m == ((r, 1),) for m in to_poly(a[1]))) for a, s in fs):
        return ' and '.join(fmt_lit(a, s) for a, s in fs)[:80]
    return None


def trap_limits(cx, rep, isN):
    p = cx.prog('solvers')
    for f in need(p, 'adevs::trap', 'integrate'):
        sm = trap_runs(cx, rep, f)
        q, lim = fnames(f, p)[:2]
        for st in sm.normal():
            key = 'trap:integrate'
            ret = st.out[1] if st.out else None
            ks = [e for e in st.trace if e.k == 'call' and e.name == 'KINSol']
            if ret is None:
                rep.und(key, 'returns nothing')
                continue
            h = norm(ret)
            if not ks:
                arr = st.mem.get(('arr', q))
                if arr is None and (h == num(0) or any(a[0] == 'zero' and s and norm(a[1]) in (h, neg(h)) for a, s in st.facts.items())):
                    rep.ok(key + ':none: no step is taken, the state stays')
                else:
                    rep.und(key, 'returns without solving')
                continue
            hs = step_handed(ks[-1])
            if hs is not None and hs != h and (simple(h) or h[0] == 'ap' and h[1] in ('min', 'max')) and not contains(h, lambda y: y[0] == 'unk'):
                rep.bad(key + ':returns', 'fails: the step that was taken is returned (%s instead of %s)' % (fmt(h)[:80], fmt(hs)[:60]), sm.where)
                continue
            limits(rep, sm, st, h, lim, key, 'trap', None, q)


def step_handed(k):
    hs = [v for kk, v in k.x[1].items() if kk[0] == 'f' and kk[2] == 'h' and contains(kk, lambda z: z == ('this',))]
    return norm(hs[-1]) if hs else None


def N03(cx, rep):
    """array terms of residual, Jacobian and step, compared with the trapezoidal equation over the rationals; failure paths of solver and set-up"""
    isN = dims(cx)
    p = cx.prog('solvers')
    need(p, 'adevs::trap', 'integrate')
    setup = [f for (b, n), l in p.byq.items() if b == 'adevs::trap' for f in l if f.get('isctor') and f['params'] and 'trap' not in p.t(f['params'][0]['t'])]
    reg = {}
    try:
        for f in p.find('adevs::trap', 'integrate'):
            for st in trap_runs(cx, rep, f).normal():
                for k in st.trace:
                    if k.k == 'call' and k.name == 'KINSol':
                        for a in k.args[3:5]:
                            v = norm(val(a))
                            if v[0] == 'ld' and v[1][0] == 'f' and v[1][1] == ('this',):
                                reg.setdefault('scale', set()).add(v[1])
    except Undecided:
        pass
    for f in setup:
        try:
            setup_rule(cx, rep, f, reg, isN)
        except Undecided as e:
            rep.und('trap:setup', str(e))
    fixed = None
    try:
        for f in p.find('adevs::trap', 'integrate'):
            fixed = step_trap(cx, rep, f, isN) or fixed
    except Undecided as e:
        rep.und('trap:step', str(e))
    res = None
    try:
        fs = [p.fn[i] for i in reg.get('func', ()) if i in p.fn] or p.find('adevs::trap', 'func')
        for f in fs:
            res = residual(cx, rep, f, isN, fixed) or res
    except Undecided as e:
        rep.und('trap:residual', str(e))
    try:
        fs = [p.fn[i] for i in reg.get('jac', ()) if i in p.fn] or p.find('adevs::trap', 'jac')
        for f in fs:
            jacobian(cx, rep, f, isN, res)
    except Undecided as e:
        rep.und('trap:jacobian', str(e))


FALLIBLE = {'SUNContext_Create': 'neg', 'N_VNew_Serial': 'null', 'N_VClone': 'null', 'SUNDenseMatrix': 'null', 'SUNLinSol_Dense': 'null',
            'KINCreate': 'null', 'KINInit': 'neg', 'KINSetUserData': 'neg', 'KINSetLinearSolver': 'neg', 'KINSetJacFn': 'neg'}


def setup_rule(cx, rep, f, reg, isN):
    sm = trap_runs(cx, rep, f)
    p = sm.prog
    seen = set()
    for st in sm.normal():
        calls = [e for e in st.trace if e.k == 'call']
        for c in calls:
            kind = FALLIBLE.get(c.name)
            if kind is None:
                continue
            seen.add(c.name)
            key = 'setup:' + c.name
            r = c.ret
            if kind == 'neg':
                ok = kin_ok(st.facts, r)
            else:
                ok = None
                for a, s in st.facts.items():
                    if a[0] == 'eq' and r in (a[1], a[2]) and NULL in (a[1], a[2]):
                        ok = not s
            if ok is True:
                rep.ok('%s: its failure does not go unnoticed' % key)
            elif ok is False:
                rep.bad(key, 'fails: every failure to set the solver up is reported by an exception (construction succeeds although %s failed)' % c.name, sm.at(c))
            elif not any(contains(a, lambda y: y == r) for a in st.facts):
                rep.bad(key, 'fails: every failure to set the solver up is reported by an exception (the result of %s is not looked at)' % c.name, sm.at(c))
            elif plain_test(st.facts, r):
                rep.bad(key, 'fails: every failure to set the solver up is reported by an exception (construction succeeds with %s)' % plain_test(st.facts, r), sm.at(c))
            else:
                rep.und(key, 'another test of the result')
        for c in calls:
            if c.name == 'KINInit' and len(c.args) > 1 and val(c.args[1])[0] == 'fnp':
                reg.setdefault('func', set()).add(val(c.args[1])[1])
            if c.name == 'KINSetJacFn' and len(c.args) > 1 and val(c.args[1])[0] == 'fnp':
                reg.setdefault('jac', set()).add(val(c.args[1])[1])
                tst = [a for a, s in st.facts.items() if a[0] == 't' and s and a[1][0] == 'ret' and a[1][1] == 'get_jacobian']
                known = [a for a in st.facts if contains(a, lambda y: y[0] == 'ret' and y[1] == 'get_jacobian')]
                rep.check(True if tst else None if known else False, 'setup:support', 'the Jacobian is registered when the system supports it', sm.at(c))
        for sc in reg.get('scale', ()):
            v = st.mem.get(sc)
            if v is None:
                continue
            cs = [c for c in calls if c.name == 'N_VConst' and len(c.args) == 2 and val(c.args[1]) == v]
            k = norm(val(cs[-1].args[0])) if cs else None
            if k is not None and isnum(k):
                rep.check(k[1] > 0, 'setup:scale', 'the scaling of the nonlinear system is positive (%s)' % k[1], sm.at(cs[-1]))
        # the residual finds its solver
        ud = [c for c in calls if c.name == 'KINSetUserData']
        for c in ud:
            a = val(c.args[1])
            if a[0] == 'addr':
                me = [v for k, v in st.mem.items() if k[0] == 'f' and norm_ptr(k[1]) == norm_ptr(a[1]) and p_self(v)]
                rep.check(True if me else None, 'setup:self', 'the residual is handed this solver', sm.at(c))
        if not any(c.name == 'KINSetJacFn' for c in calls):
            t = [s for a, s in st.facts.items() if a[0] == 't' and a[1][0] == 'ret' and a[1][1] == 'get_jacobian']
            if t and t[0] is True:
                rep.bad('setup:jacobian', 'fails: the Jacobian a system supplies is handed to the solver', sm.where)
    for n in ('KINInit', 'KINSetUserData', 'KINSetLinearSolver'):
        if n not in seen and sm.normal():
            rep.und('setup:' + n, 'not called')


def norm_ptr(l):
    return l[1] if l[0] == 'addr' else l


def p_self(v):
    return v == ('this',)


def reduce_elts(t):
    """elements of arrays that a loop over the same range filled"""
    return norm(subst(norm(t), lambda y: elem(y[1], y[2]) if y[0] == 'elt' and elem(y[1], y[2]) != y else None))


def control(rep, sm, st, q, h, isN):
    """the step tried next is not above sqrt(tol/C), C = |q + h f(q) - y|/h^2, for every variable"""
    what = 'the next step is limited by the tolerance for every variable'

    def istol(y):
        return y[0] == 'ld' and y[1][0] == 'f' and y[1][1] == ('this',) and 'tol' in str(y[1][2])

    def isroot(y):
        return y[0] == 'ap' and y[1] in ('sqrt', 'pow')

    def is_max(y):
        return y[0] == 'ap' and y[1] == 'maxred'
    WANT = {(('q', 1),): F(1), (('f', 1), ('h', 1)): F(1), (('y', 1),): F(-1)}

    def reader(ix, v):
        def kind(y):
            """atoms of |q + h f(q) - y|"""
            if y[0] == 'elt':
                A = norm(y[1])
                if y[2] == ix or y[2] == T.BIND:
                    if A == ('a0', q):
                        return 'q'
                    if A[0] == 'ap' and A[1] == 'kinsol':
                        return 'y'
                    if isder(A, q):
                        return 'f'
                if (A[0] == 'a0' or A[0] == 'ap' and (A[1] in ('kinsol', 'lam') or A[1].startswith('out:'))) and (y[2] in (ix, T.BIND) or isnum(y[2])):
                    return 'odd'
            return None

        def poly(t):
            out = {}
            for m, co in to_poly(reduce_elts(t)).items():
                ks = {}
                for y, k in m:
                    n = 'h' if y == h else 'tol' if istol(y) else kind(y)
                    if n is None:
                        return None
                    ks[n] = ks.get(n, 0) + k
                kk = tuple(sorted(ks.items()))
                out[kk] = out.get(kk, F(0)) + co
            return {k: c for k, c in out.items() if c}

        def isabs(y):
            """|prediction - solution|: power and factor relative to h, False, None"""
            if is_max(y):
                s, e, body, init = [norm(x) for x in ap_payload(y)]
                if not isnum(init) or s != num(0) or not isN(e):
                    return None if not isnum(init) else False if isN(e) or sibling(e, isN) else None
                if init[1] > 0:
                    return False
                r = measure(body)
                return r
            if y[0] == 'ap' and y[1] == 'abs':
                p_ = poly(ap_payload(y)[0])
                if p_ is None:
                    return None
                return ({'d': 1, 'h': 0, 'tol': 0}, F(1)) if p_ == WANT or p_ == {k: -c for k, c in WANT.items()} else False
            return None

        def measure(t):
            """powers of the difference, of h and of tol, and the factor; None (not known) or False (known to be something else)"""
            p_ = to_poly(reduce_elts(t))
            if len(p_) != 1:
                return None
            (m, co), = p_.items()
            d = {'d': 0, 'h': 0, 'tol': 0}
            for y, k in m:
                if y == h:
                    d['h'] += k
                elif v is not None and y == v:
                    return False
                elif istol(y):
                    d['tol'] += k
                else:
                    b = isabs(y)
                    if not b:
                        return b
                    for n in d:
                        d[n] += k * b[0][n]
                    if b[1] != 1:
                        co = co * b[1] ** k if k == int(k) else None
                        if co is None:
                            return None
            return d, co
        return measure

    def kept(facts, v, measure):
        """why the step may stay as it is: True, a text why it may not, or None"""
        why = None
        for a, s in facts.items():
            if a[0] != 'pos':
                continue
            p_ = reduce_elts(a[1])
            ms = {m: c for m, c in to_poly(p_).items() if m != ()}
            k0 = to_poly(p_).get((), F(0))
            if len(ms) == 1:
                mm = measure(mk_poly(ms))
                co = list(ms.values())[0]
                if mm and mm[0]['d'] == 1:
                    # s: k0 + co*C > 0
                    if (co < 0) == s and abs(k0 / co) <= F(1, 10 ** 20):
                        return True
                    elif (co < 0) != s:
                        why = why or 'a large difference'
                    else:
                        why = why or 'a difference below %s' % abs(k0 / co)
                elif mm is False:
                    why = why or 'something else'
            elif v is not None and contains(p_, lambda y: y == v) and contains(p_, isroot):
                r_ = to_poly(p_)
                cv = r_.get(((v, 1),))
                oth = [(m, c) for m, c in r_.items() if m != ((v, 1),)]
                if cv is not None and len(oth) == 1 and oth[0][1] == -cv and bound(oth[0][0], measure) is True:
                    # s: cv*(v - B) > 0
                    if (cv < 0) == s:
                        return True
            elif len(ms) == 2 and not k0 and not (v is not None and contains(p_, lambda y: y == v)):
                mm = [measure(mk_poly({m: c})) for m, c in ms.items()]
                if any(x_ is False or x_ and x_[0]['d'] == 1 for x_ in mm) and all(x_ is not None for x_ in mm):
                    why = why or 'something else'
        return why

    def limited(x, measure):
        ok = None
        for u in upper(x):
            p_ = to_poly(u)
            if len(p_) != 1:
                continue
            (m, co), = p_.items()
            if any(isroot(y) for y, _ in m):
                b = bound(m, measure)
                if b is True and 0 < co <= 1:
                    return True
                if b is True and co > 1:
                    ok = '%s times the bound' % co
                elif b is not None and b is not True:
                    ok = b
        return ok
    done = False
    fs = []
    for l, v in st.mem.items():
        if l[0] == 'f' and l[1] == ('this',) and v is not None and v[0] == 'phi':
            L = next((x for x in loops_in(st.trace) if x.id == v[1]), None)
            if L is not None and v[2] in L.updates and any(x is not None and contains(reduce_elts(x), lambda y: y[0] == 'ap' and y[1] in ('sqrt', 'pow')) for _, x in L.updates[v[2]][2]):
                fs.append((L, norm(v), L.updates[v[2]]))
    for L, v, (i, t, ups) in fs:
        done = True
        at = sm.prog.where(L.line)
        if L.partial and L.range and norm(L.range[0]) == num(0) and isN(norm(L.range[1])):
            rep.bad('step:control', 'fails: %s (the loop ends before the last one)' % what, at)
            continue
        if not L.regular or L.partial or not L.range or norm(L.range[0]) != num(0) or not isN(norm(L.range[1])):
            r = L.range and [norm(x) for x in L.range]
            if r and L.regular and not L.partial and all(all(len(m) == 1 and (isN(m[0][0]) or sibling(m[0][0], isN)) for m in to_poly(x) if m != ()) for x in r):
                rep.bad('step:control', 'fails: %s (the loop runs over %s..%s)' % (what, fmt(r[0]), fmt(r[1])), at)
            else:
                rep.und('step:control', 'the loop has another form')
            continue
        ix = ('ix', L.id)
        measure = reader(ix, v)
        for pth, x in ups:
            x = reduce_elts(x)
            if x == v or x == norm(t):
                # left as it is: only when the difference is negligible, or the bound is not smaller
                why = kept(pth.facts, v, measure)
                if why is True:
                    continue
                if why or all(a[0] in ('complete',) or contains(a, lambda y: y == ix) and not contains(a, lambda y: y[0] in ('elt', 'ap')) for a in pth.facts):
                    rep.bad('step:control', 'fails: %s (it stays as it is%s)' % (what, ' for ' + why if why else ''), at)
                else:
                    rep.und('step:control', 'the next step stays as it is')
                continue
            ok = limited(x, measure)
            red = {('pos', reduce_elts(a[1])): s for a, s in pth.facts.items() if a[0] == 'pos'}
            if ok is True and v not in upper(x) and not leq(x, v, red):
                rep.bad('step:control', 'fails: %s (the smallest of them is not kept)' % what, at)
            elif ok is True:
                rep.ok('step:control: %s' % what)
            elif ok:
                rep.bad('step:control', 'fails: %s (%s)' % (what, ok), at)
            elif x[0] == 'ap' and x[1] == 'max':
                rep.bad('step:control', 'fails: %s (the larger one is kept)' % what, at)
            else:
                rep.und('step:control', 'the next step becomes %s' % fmt(x)[:80])
    if done:
        return
    # one bound from the largest difference
    measure = reader(None, None)
    uses = [norm(v) for s2 in sm.normal() for l, v in s2.mem.items() if l[0] == 'f' and l[1] == ('this',) and v is not None and contains(norm(v), is_max)]
    if uses:
        here = [norm(v) for l, v in st.mem.items() if l[0] == 'f' and l[1] == ('this',) and v is not None and contains(norm(v), is_max)]
        oks = [limited(x, measure) for x in here]
        if any(o is True for o in oks):
            rep.ok('step:control: %s' % what)
        elif here and any(oks):
            rep.bad('step:control', 'fails: %s (%s)' % (what, next(o for o in oks if o)), sm.where)
        elif here:
            rep.und('step:control', 'the next step becomes %s' % fmt(here[0])[:80])
        else:
            why = kept(st.facts, None, measure)
            if why is True:
                rep.ok('step:control: %s' % what)
            elif why:
                rep.bad('step:control', 'fails: %s (it stays as it is for %s)' % (what, why), sm.where)
            else:
                rep.und('step:control', 'the next step stays as it is')
        return

    def tol(t):
        return t is not None and contains(t, istol)
    if not any(tol(v) for s2 in sm.normal() for v in s2.mem.values()) and not any(tol(a) for s2 in sm.normal() for a in s2.facts) and not any(
            tol(x) for s2 in sm.normal() for L in loops_in(s2.trace) for l in L.updates for _, x in L.updates[l][2]):
        rep.bad('step:control', 'fails: %s (the tolerance is not looked at)' % what, sm.where)
    else:
        rep.und('step:control', 'the step is controlled in another way')


def bound(m, measure):
    """a monomial sqrt(tol h^2 / |difference|), possibly with factors taken out of the root: True, a text that says what else it is, or None"""
    tot, f = {'d': F(0), 'h': F(0), 'tol': F(0)}, F(1)
    for y, k in m:
        if y[0] == 'ap' and y[1] in ('sqrt', 'pow'):
            pl = ap_payload(y)
            if y[1] == 'pow' and (len(pl) != 2 or norm(pl[1]) != num(F(1, 2))):
                return None
            r, e = measure(pl[0]), F(k) / 2
        else:
            r, e = measure(mk_poly({((y, 1),): F(1)})), F(k)
        if r is None:
            return None
        if r is False:
            return 'the difference is not that of prediction and solution'
        d, co = r
        for n in tot:
            tot[n] += d[n] * e
        if e == F(1, 2):
            if co > 1 and f >= 1:
                f = co
            elif co != 1 and not 0 < co <= 1:
                return None
        elif co != 1:
            return None
    if tot == {'d': F(-1, 2), 'h': 1, 'tol': F(1, 2)}:
        return True if f <= 1 else 'a factor of %s' % f
    return 'the bound is tol^%s h^%s d^%s' % (tot['tol'], tot['h'], tot['d'])


def step_trap(cx, rep, f, isN):
    """returns the name of the field with the fixed part of the equation and its body"""
    sm = trap_runs(cx, rep, f)
    p = sm.prog
    q, lim = fnames(f, p)[:2]
    out = None
    for st in sm.normal():
        ks = [e for e in st.trace if e.k == 'call' and e.name == 'KINSol']
        if not ks:
            continue
        if len(ks) != 1:
            rep.und('step', 'the solver is called %d times on a path' % len(ks))
            continue
        k = ks[0]
        at = sm.at(k)
        r = k.ret
        ok = kin_ok(st.facts, r)
        h = norm(st.out[1]) if st.out else None
        adm = admits(st.facts, r, range(-1, -20, -1))
        if adm is not None:
            rep.bad('step:success', 'fails: a step is accepted only when the nonlinear solver succeeded (it is accepted with %d)' % adm, at)
        elif ok is True:
            rep.ok('step:success: a step is accepted only when the nonlinear solver succeeded')
        elif ok is False:
            rep.bad('step:success', 'fails: a step is accepted only when the nonlinear solver succeeded', at)
        elif not any(contains(a, lambda y: y == r) for a in st.facts):
            rep.bad('step:success', 'fails: a step is accepted only when the nonlinear solver succeeded (its result is not looked at)', at)
        elif plain_test(st.facts, r):
            rep.bad('step:success', 'fails: a step is accepted only when the nonlinear solver succeeded (it is accepted with %s)' % plain_test(st.facts, r), at)
        else:
            rep.und('step:success', 'another test')
        # the solution goes to the caller
        arr = st.mem.get(('arr', q))
        y = val(k.args[1])
        if arr is None:
            rep.bad('step:result', 'fails: the state passed in becomes the solution (it is not written)', sm.where)
        else:
            a = norm(arr)
            fr = full(a, isN)
            body = fr[0] if isinstance(fr, tuple) else ('elt', a, T.BIND)
            if fr == 'part':
                rep.bad('step:result', 'fails: the state passed in becomes the solution (only part of it)', sm.where)
            elif contains(body, lambda z: z[0] == 'ap' and z[1] == 'kinsol') and body[0] == 'elt' and body[1][0] == 'ap' and body[1][1] == 'kinsol':
                rep.ok('step:result: the state passed in becomes the solution of the nonlinear solver')
            elif contains(body, lambda z: z[0] in ('unk', 'afin', 'aphi')):
                rep.und('step:result', 'the state becomes %s' % fmt(a)[:100])
            else:
                rep.bad('step:result', 'fails: the state passed in becomes the solution (%s)' % fmt(body)[:100], sm.where)
        # what the solver was given
        snap = k.x[1]
        ders = [e for e in st.trace if e.k == 'call' and e.name == 'der_func']
        hs = [v for kk, v in snap.items() if kk[0] == 'f' and kk[2] == 'h' and contains(kk, lambda z: z == ('this',))]
        if hs and h is not None:
            rep.check(True if norm(hs[-1]) == h else (None if contains(norm(hs[-1]), lambda z: z[0] == 'unk') else False), 'step:size',
                      'the equation is solved for the step that is reported (%s, %s is reported)' % (fmt(norm(hs[-1]))[:40], fmt(h)[:40]), at)
        else:
            rep.und('step:size', 'the step size is handed over in another way')
        cand = {}
        for kk, v in snap.items():
            if kk[0] != 'arr' or kk[1][0] != 'ld' or kk[1][1][0] != 'f':
                continue
            fr = full(norm(v), isN)
            if isinstance(fr, tuple):
                cand[norm(kk[1])[1][2]] = fr[0]
            elif fr == 'part':
                cand[norm(kk[1])[1][2]] = 'part'
        scal = {}
        for kk, v in snap.items():
            if kk[0] == 'f' and contains(kk, lambda z: z == ('this',)) and h is not None:
                v = norm(v)
                if v == h or v[0] == 'poly' and all(x == h for m in to_poly(v) for x, _ in m):
                    scal[kk[2]] = v
        out = (cand, scal, h, q)
        # failures leave the state alone and retry with a smaller step
        if h is not None and h[0] == 'phi':
            L = next((x for x in loops_in(st.trace) if x.id == h[1]), None)
            for pth in (L.paths if L is not None else ()):
                kf = [e for e in pth.trace if e.k == 'call' and e.name == 'KINSol']
                o2 = kin_ok(pth.facts, kf[0].ret) if kf else None
                adm = admits(pth.facts, kf[0].ret, (0, 1)) if kf else None
                if adm is not None:
                    rep.bad('step:retried', 'fails: only a failed step is retried (it is retried with %d)' % adm, sm.prog.where(L.line))
                elif o2 is False:
                    rep.ok('step:failure: a failure of the nonlinear solver is retried')
                elif o2 is True:
                    rep.bad('step:retried', 'fails: only a failed step is retried', sm.prog.where(L.line))
                tq = [e for e in events(pth.trace) if e.k in ('wr', 'bulk', 'touch') and e.obj is not None and
                      ((e.obj[0] == 'el' and norm(e.obj[1]) == q) or e.obj == ('arr', q))]
                rep.check(not tq, 'step:failure:state', 'a failed step leaves the state alone', sm.at(tq[0]) if tq else at)
            if L is not None:
                v = next((norm(x) for loc, (i, t, u) in L.updates.items() if loc == h[2] for _, x in u), None)
                if v is not None:
                    co = to_poly(v)
                    kk = co.get(((h, 1),)) if len(co) == 1 else None
                    rep.check(None if kk is None else 0 < kk < 1, 'step:smaller', 'a failed step is retried with a smaller one (%s)' % fmt(v)[:60], sm.prog.where(L.line))
        elif h is not None:
            L = next((x for x in loops_in(st.trace) if any(e.k == 'call' and e.name == 'KINSol' for pth in x.paths for e in pth.trace)), None)
            if L is not None and any(step_handed(e) == h for pth in L.paths for e in pth.trace if e.k == 'call' and e.name == 'KINSol'):
                rep.bad('step:smaller', 'fails: a failed step is retried with a smaller one (the step stays the same)', sm.prog.where(L.line))
            else:
                rep.und('step:failure', 'no retry loop')
        if h is not None:
            control(rep, sm, st, q, h, isN)
        # the derivative at the start
        for e in ders[:1]:
            rep.check(True if norm(val(e.args[0])) == q else None, 'step:derivative', 'the derivative of the start state is used', sm.at(e))
    return out


def residual(cx, rep, f, isN, fixed):
    """c*(q + h/2 f(q) + h/2 f(y) - y); returns the factor c.  What the step stored for the residual is put in its place."""
    sm = trap_runs(cx, rep, f)
    P = fnames(f, sm.prog)
    Y, Fv = ap('nvdata', P[0]), ap('nvdata', P[1])
    H = ('sym', 'h')
    res = None
    cand, scal, h, q = fixed if fixed is not None else ({}, {}, None, None)
    what = 'the residual is that of the trapezoidal equation'

    def scalar(t):
        return H if t == h and h is not None else None

    def fld(l):
        return l[2] if l[0] == 'f' else None
    for st in sm.normal():
        o = st.out[1] if st.out else None
        if o is not None and o != num(0):
            if isnum(o) and plain_facts(st):
                rep.bad('residual:status', 'fails: the residual reports success (%s)' % o[1], sm.where)
            else:
                rep.und('residual', 'returns %s' % fmt(o)[:40])
            continue
        a = next((norm(v) for k, v in st.mem.items() if k[0] == 'arr' and norm(k[1]) == Fv), None)
        if a is None:
            rep.bad('residual', 'fails: %s (it is not set)' % what, sm.where)
            continue
        fr = full(a, isN)
        if fr == 'part':
            rep.bad('residual', 'fails: the residual is set for every state variable', sm.where)
            continue
        if fr is None:
            rep.und('residual', 'the residual has the form %s' % fmt(a)[:100])
            continue
        part = []

        def put(t):
            if t[0] == 'elt' and t[1][0] == 'a0' and t[1][1][0] == 'ld' and own_index(t[2]):
                n = fld(t[1][1][1])
                v = cand.get(n)
                if v == 'part':
                    part.append(n)
                elif v is not None:
                    return norm(subst(v, scalar))
            if t[0] == 'ld' and fld(t[1]) in scal:
                return norm(subst(scal[fld(t[1])], scalar))
            return None
        body = norm(subst(fr[0], put))
        if part:
            rep.bad('residual:fixed', 'fails: the fixed part of the equation is set for every state variable', sm.where)
            continue

        def kind(x):
            """what an atom is: y, fy, q, fq, h; 'odd' when it is known and none of these; None when it is not known"""
            if x == H:
                return 'h'
            if x[0] != 'elt':
                return None
            B = norm(x[1])
            k = None
            if B == ('a0', Y):
                k = 'y'
            elif B[0] == 'a0' and B[1][0] == 'ld' and fld(B[1][1]) in cand:
                return 'odd' if x[2][0] == 'num' else None
            elif q is not None and B == ('a0', q):
                k = 'q'
            elif B == ('a0', Fv):
                k = 'odd'
            elif B[0] == 'ap' and B[1].startswith('out:der_func:1'):
                z = norm(ap_payload(B)[1])
                k = 'fy' if z == ('a0', Y) else 'fq' if q is not None and z == ('a0', q) else 'odd' if z[0] == 'a0' else None
            if k is not None and not own_index(x[2]):
                return 'odd' if x[2][0] in ('num', 'poly') else None
            return k
        c = {}
        und = odd = None
        for m, co in to_poly(body).items():
            ks = [(kind(x), k) for x, k in m]
            if any(k is None for k, _ in ks):
                und = fmt(mk_poly({m: co}))[:100]
                continue
            t = tuple(sorted(ks))
            if t in ((('y', 1),), (('q', 1),), (('fy', 1), ('h', 1)), (('fq', 1), ('h', 1))):
                c[t[0][0]] = c.get(t[0][0], F(0)) + co
            else:
                odd = fmt(mk_poly({m: co}))[:100]
        if und:
            rep.und('residual', 'the term %s' % und)
            continue
        if odd:
            rep.bad('residual', 'fails: %s (the term %s)' % (what, odd), sm.where)
            continue
        g = -c.get('y', F(0))
        if g == 0:
            rep.bad('residual', 'fails: %s (the unknown does not occur)' % what, sm.where)
            continue
        if c.get('fy', F(0)) != g * F(1, 2):
            rep.bad('residual', 'fails: %s (the derivative of the unknown has weight %s)' % (what, c.get('fy', F(0)) / g), sm.where)
            continue
        if c.get('q', F(0)) == g and c.get('fq', F(0)) == g * F(1, 2):
            rep.ok('residual: the equation solved is y = q + h/2 (f(q) + f(y))')
            res = g
        elif fixed is None:
            rep.und('residual', 'the fixed part')
        else:
            rep.bad('residual:fixed', 'fails: the equation solved is y = q + h/2 (f(q) + f(y)) (the fixed part is %s q + %s h f(q))' % (c.get('q', F(0)) / g, c.get('fq', F(0)) / g), sm.where)
    return res


def own_index(i):
    return i == T.BIND or i[0] == 'ix'


def isder(A, q):
    A = norm(A)
    if A[0] == 'ap' and A[1].startswith('out:der_func:1'):
        return norm(ap_payload(A)[1]) == ('a0', q)
    return False


def plain_facts(st):
    """the path does not depend on what a call reported or on the values of the states"""
    return not any(contains(a, lambda y: y[0] in ('ret', 'elt', 'unk', 'phi', 'ap')) for a in st.facts)


def square(L, J, isN):
    """a nest of two loops over the elements of J: ('ok', scale or None, added on the diagonal), ('bad', key, what, event) or None"""
    i = ('ix', L.id)
    todo, post = [], []
    for p in L.paths:
        inner = [e.x for e in p.trace if e.k == 'loop']
        if len(inner) > 1 or any(not x.range for x in inner):
            return None
        for M_ in inner:
            for q in M_.paths:
                if any(e.k == 'loop' for e in q.trace):
                    return None
                todo.append((M_, {**p.facts, **q.facts}, q))
        pw = [e for e in p.trace if e.k == 'wr' and e.obj[0] == 'el' and norm(e.obj[1]) == J]
        if pw:
            if not inner:
                return None
            post.append((p, pw, p.trace.index(pw[0]) < max(k for k, e in enumerate(p.trace) if e.k == 'loop')))
    if not todo:
        return None
    N = next((x for m in to_poly(norm(L.range[1])) for x, _ in m if isN(x)), None)
    if N is None:
        return None
    sc, diag, full_ = set(), set(), norm(L.range[0]) == num(0) and norm(L.range[1]) == N
    for M_, facts, q in todo:
        if M_ is None:
            return None
        j = ('ix', M_.id)
        full_ = full_ and norm(M_.range[0]) == num(0) and norm(M_.range[1]) == N and M_.regular and not M_.partial
        same = None
        for a, v in facts.items():
            a = norm(a)
            if a[0] == 'zero' and (a[1] == sub(i, j) or a[1] == sub(j, i)):
                same = v
            elif a[0] == 'eq' and set(a[1:3]) == {i, j}:
                same = v
            elif a[0] == 'pos' and v and a[1] in (sub(i, j), sub(j, i)):
                same = False

        def at(t):
            return norm(subst(t, lambda x: i if x == j else None)) if same else norm(t)
        last, n = None, 0
        for e in q.trace:
            if e.k == 'wr' and e.obj[0] == 'el' and norm(e.obj[1]) == J:
                last, n = e, n + 1
                idx, v = at(e.obj[2]), at(val(e.args[0]))
                cur = [m for m in to_poly(v) if any(x[0] == 'elt' for x, _ in m)]
                if len(cur) != 1:
                    return None
                els = [(x, k) for x, k in cur[0] if x[0] == 'elt']
                if len(els) != 1 or els[0][1] != 1:
                    return None
                el = els[0][0]
                if idx not in (at(add(mul(N, i), j)), at(add(mul(N, j), i))):
                    return None
                if el[2] != idx:
                    if el[2] in (at(add(mul(N, i), j)), at(add(mul(N, j), i))) and not same:
                        return ('bad', 'layout', 'element %s is computed from element %s' % (fmt(idx), fmt(el[2])), e)
                    return None
        if last is None:
            return None
        fac = [(x, k) for x, k in cur[0] if x[0] != 'elt']
        co = to_poly(v)[cur[0]]
        rest = sub(v, mk_poly({cur[0]: co}))
        if fac and not (len(fac) == 1 and fac[0][1] == 1 and fac[0][0][0] == 'ld' and fac[0][0][1][0] == 'f' and fac[0][0][1][2] == 'h'):
            return None
        if not isnum(rest):
            return None
        if same is not True and rest != num(0):
            return ('bad', 'scale', 'elements off the diagonal get %s added' % rest[1], last)
        sc.add(co if fac else ('noh', co))
        if same:
            diag.add(rest[1])
    d2 = set()
    for p, pw, before in post:
        # after the inner loop: the diagonal
        if len(pw) != 1 or len(L.paths) != 1:
            return None
        idx, v = norm(pw[0].obj[2]), norm(val(pw[0].args[0]))
        cur = [m for m in to_poly(v) if any(x[0] == 'elt' for x, _ in m)]
        if idx != add(mul(N, i), i) or len(cur) != 1 or len(cur[0]) != 1 or cur[0][0][1] != 1 or cur[0][0][0][2] != idx or to_poly(v)[cur[0]] != 1:
            return None
        rest = sub(v, mk_poly({cur[0]: F(1)}))
        if not isnum(rest):
            return None
        if before and rest != num(0) and not any(isinstance(c, tuple) for c in sc):
            return ('bad', 'diagonal', 'the diagonal gets %s added before it is scaled' % rest[1], pw[0])
        if before:
            return None
        d2.add(rest[1])
    if not full_ or len(sc) != 1 or len(diag) > 1 or (diag and diag != {F(0)} and d2) or len(d2) > 1:
        return None
    if d2:
        diag = d2
    c = sc.pop()
    return ('ok', None if c == ('noh', 1) else c, diag.pop() if diag else F(0))


def jacobian(cx, rep, f, isN, g):
    """c*(h/2 f'(y) - I), element (i,i) at i*(N+1)"""
    sm = trap_runs(cx, rep, f)
    P = fnames(f, sm.prog)
    Y, J = ap('nvdata', P[0]), ap('matdata', P[2])
    for st in sm.normal():
        o = st.out[1] if st.out else None
        if o is not None and o != num(0):
            if isnum(o) and plain_facts(st):
                rep.bad('jacobian:status', 'fails: the Jacobian reports success (%s)' % o[1], sm.where)
            else:
                rep.und('jacobian', 'returns %s' % fmt(o)[:40])
            continue
        gj = [e for e in st.trace if e.k == 'call' and e.name == 'get_jacobian']
        if not gj and not any(e.k == 'call' and e.name not in ('N_VGetArrayPointer', 'SUNDenseMatrix_Data') for e in events(st.trace)):
            rep.bad('jacobian:at', 'fails: the Jacobian handed over is that of the residual (the model is not asked for it)', sm.where)
            continue
        if len(gj) != 1:
            rep.und('jacobian', '%d queries of the Jacobian' % len(gj))
            continue
        a0, a1 = norm(val(gj[0].args[0])), norm(val(gj[0].args[1]))
        if a0 != Y:
            rep.check(None if vague(a0) else False, 'jacobian:at', 'the Jacobian is taken at the unknown (at %s)' % fmt(a0), sm.at(gj[0]))
            continue
        if a1 != J:
            rep.und('jacobian', 'the Jacobian is computed elsewhere')
            continue
        ls = [e.x for e in st.trace if e.k == 'loop']
        sc, dg = None, F(0)
        probs = []
        N = None
        for L in ls:
            if L.range and L.regular and any(e.k == 'loop' for p in L.paths for e in p.trace):
                r = square(L, J, isN)
                if r is None:
                    probs.append('a nest of loops of another form')
                    break
                if r[0] == 'bad':
                    rep.bad('jacobian:' + r[1], 'fails: the Jacobian handed over is that of the residual (%s)' % r[2], sm.at(r[3]))
                    return
                if r[1] is not None:
                    if dg != 0 or sc is not None:
                        probs.append('scaled in several steps')
                        break
                    sc = r[1]
                dg += r[2]
                continue
            if len(L.paths) != 1 or any(e.k == 'loop' for e in L.paths[0].trace) or not L.range or not L.regular:
                probs.append('a loop of another form')
                break
            ix = ('ix', L.id)
            ws = [e for e in L.paths[0].trace if e.k == 'wr' and e.obj[0] == 'el' and norm(e.obj[1]) == J]
            if not ws:
                continue
            s, e_ = norm(L.range[0]), norm(L.range[1])
            N = N or next((x for m in to_poly(e_) for x, _ in m if isN(x)), None)
            if N is not None and any(e.k == 'wr' and e.obj[0] == 'el' and norm(e.obj[1]) == J for e in st.trace):
                probs.append('elements set one by one')
                break
            short = next((k for k in (N, mul(N, N)) if N is not None and isnum(sub(e_, k)) and sub(e_, k)[1] < 0), None)
            if N is not None and short is not None and len(ws) == 1 and s == num(0) and norm(ws[0].obj[2]) in (ix, add(mul(N, ix), ix)):
                rep.bad('jacobian:range', 'fails: every element of the Jacobian is set (up to %s)' % fmt(e_), sm.at(ws[0]))
                return
            if N is None or len(ws) != 1 or s != num(0):
                if N is not None and len(ws) == 1 and isnum(s) and e_ in (N, mul(N, N)):
                    rep.bad('jacobian:range', 'fails: every element of the Jacobian is set (from %s)' % s[1], sm.at(ws[0]))
                    return
                probs.append('a loop of another form')
                break
            w = ws[0]
            idx = norm(w.obj[2])
            v = norm(val(w.args[0]))
            cur = [m for m in to_poly(v) if any(x[0] == 'elt' for x, _ in m)]
            if len(cur) != 1:
                probs.append('an element becomes %s' % fmt(v)[:60])
                break
            el = [x for x, k in cur[0] if x[0] == 'elt'][0]
            if el[2] != idx:
                probs.append('an element is computed from another')
                break
            fac = [(x, k) for x, k in cur[0] if x[0] != 'elt']
            co = to_poly(v)[cur[0]]
            rest = sub(v, mk_poly({cur[0]: co}))
            if idx == ix and e_ == mul(N, N):
                # every element
                if rest != num(0):
                    rep.bad('jacobian:scale', 'fails: the Jacobian handed over is that of the residual (every element gets %s added)' % fmt(rest)[:40], sm.at(w))
                    return
                if dg != 0:
                    # the diagonal was set before: it is scaled as well
                    if fac:
                        rep.bad('jacobian:diagonal', 'fails: the Jacobian handed over is that of the residual (the diagonal gets %s added before it is scaled)' % dg, sm.at(w))
                        return
                    probs.append('scaled after the diagonal')
                    break
                if fac and all(x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == 'h' for x, _ in fac) and fac[0][1] != 1:
                    rep.bad('jacobian:scale', 'fails: the Jacobian handed over is that of the residual (every element is scaled by %s)' % fmt(mk_poly({tuple(fac): co}))[:60], sm.at(w))
                    return
                if fac and not (len(fac) == 1 and fac[0][1] == 1 and fac[0][0][0] == 'ld' and fac[0][0][1][0] == 'f' and fac[0][0][1][2] == 'h'):
                    probs.append('scaled by %s' % fmt(mk_poly({tuple(fac): co})))
                    break
                sc = (co if fac else ('noh', co))
            elif idx == ix and e_ == N:
                rep.bad('jacobian:range', 'fails: every element of the Jacobian is set (only the first column is)', sm.at(w))
                return
            elif e_ == N and is_poly_like(idx):
                if idx != add(mul(N, ix), ix):
                    rep.bad('jacobian:layout', 'fails: the diagonal of the Jacobian lies at i*(N+1) (at %s)' % fmt(idx), sm.at(w))
                    return
                if fac or co != 1:
                    probs.append('the diagonal is scaled')
                    break
                if not isnum(rest):
                    probs.append('the diagonal gets %s added' % fmt(rest)[:60])
                    break
                dg += rest[1]
            else:
                probs.append('a loop over %s' % fmt(e_)[:40])
                break
        if probs:
            rep.und('jacobian', probs[0])
            continue
        if g is None:
            rep.und('jacobian', 'the residual is not known')
            continue
        if sc is None:
            rep.bad('jacobian:scale', 'fails: the Jacobian handed over is that of the residual (the derivative of f is not scaled by h/2)', sm.where)
        elif isinstance(sc, tuple) or sc != g * F(1, 2):
            rep.bad('jacobian:scale', 'fails: the Jacobian handed over is that of the residual (the derivative of f has the factor %s)'
                    % ('%s without the step' % sc[1] if isinstance(sc, tuple) else '%s h' % sc), sm.where)
        else:
            rep.ok('jacobian:scale: the derivative of f enters with half the step')
        rep.check(dg == -g, 'jacobian:diagonal', 'the Jacobian handed over is that of the residual (%s on the diagonal)' % dg, sm.where)


# ------------------------------------------------------------------ N04
def N04(cx, rep):
    """array terms of spline construction and evaluation, composed and compared with the Hermite conditions as polynomials"""
    p = cx.prog('solvers')
    inits = p.find('adevs::spline', 'init')
    evals = p.find('adevs::spline', 'interpolate')
    if not p.recb.get('adevs::spline'):
        raise Broken('adevs::spline is gone')
    ctor = [f for f in p.find('adevs::spline', 'spline') if len(f['params']) >= 5]
    if not evals:
        raise Broken('spline::interpolate is gone')
    isN = None
    names = {f['n'] for r in p.recb['adevs::spline'] for f in r['f'] if p.t(f['t']).replace('const ', '').strip() in ('int', 'unsigned int', 'int const')}
    isN = lambda t: t[0] == 'ld' and t[1][0] == 'f' and t[1][1] == ('this',) and t[1][2] in names
    for fi in inits or ctor:
        si = cx.summary('solvers', fi, 'solver').use(rep)
        P = fnames(fi, p)
        ptr = [x for x, d in zip(P, fi['params']) if '*' in p.t(d['t'])]
        hs = [x for x, d in zip(P, fi['params']) if 'double' in p.t(d['t']) and '*' not in p.t(d['t'])]
        if len(ptr) != 4 or len(hs) != 1:
            raise Undecided('init has another signature')
        q0, d0, qh, dh = ptr
        H = ('p', '#H', 9)
        for fe in evals:
            se = cx.summary('solvers', fe, 'solver').use(rep)
            Q = fnames(fe, p)
            if len(Q) != 2:
                raise Undecided('interpolate has another signature')
            X = ('p', '#x', 8)
            for s1 in si.normal():
                if any(a[0] in ('pos', 'zero', 'eq', 't') for a in s1.facts):
                    rep.und('spline', 'init depends on conditions')
                    continue
                arrs = {}
                for k, v in s1.mem.items():
                    if k[0] == 'arr':
                        arrs[norm(k[1])] = norm(v)
                scal = {k: norm(v) for k, v in s1.mem.items() if k[0] == 'f' and k[1] == ('this',)}
                for s2 in se.normal():
                    if any(a[0] in ('pos', 'zero', 'eq', 't') for a in s2.facts):
                        rep.und('spline', 'interpolate depends on conditions')
                        continue
                    out = next((norm(v) for k, v in s2.mem.items() if k == ('arr', Q[0])), None)
                    if out is None:
                        rep.bad('spline', 'fails: the interpolant is stored', se.where)
                        continue
                    fr = full(out, isN)
                    if fr == 'part':
                        rep.bad('spline:all', 'fails: every state variable is interpolated', se.where)
                        continue
                    if fr is None:
                        rep.und('spline', 'the result has the form %s' % fmt(out)[:100])
                        continue
                    part = []
                    body = subst(fr[0], lambda x: X if x == Q[1] else None)

                    def ins(x):
                        if x[0] == 'elt' and x[1][0] == 'a0' and x[1][1] in arrs:
                            r = full(arrs[x[1][1]], isN)
                            if isinstance(r, tuple):
                                return T.inst(subst(r[0], lambda y: H if y == hs[0] else None), x[2])
                            part.append((x, r))
                        if x[0] == 'ld' and x[1] in scal:
                            return subst(scal[x[1]], lambda y: H if y == hs[0] else None)
                        return None
                    poly = subst(body, ins)
                    if any(r == 'part' for _, r in part):
                        rep.bad('spline:all', 'fails: the interpolant is set up for every state variable', si.where)
                        continue
                    if part:
                        rep.und('spline', 'a coefficient has another form')
                        continue
                    hermite(rep, poly, X, H, q0, d0, qh, dh, si.where)


def deriv(t, x):
    out = num(0)
    for m, c in to_poly(t).items():
        for a, k in m:
            if a == x:
                rest = [(b, j) for b, j in m if b != x]
                if k - 1 != 0:
                    rest.append((x, k - 1))
                d = mk_poly({tuple(sorted(rest, key=repr)): c * k})
                out = add(out, d)
    return out


def hermite(rep, P, X, H, q0, d0, qh, dh, where):
    E = lambda A: ('elt', ('a0', A), T.BIND)
    if any(contains(a, lambda y: y == X) and a != X for m in to_poly(P) for a, _ in m):
        rep.und('spline', 'not a polynomial of the time: %s' % fmt(P)[:100])
        return
    known = {X, H} | {E(a) for a in (q0, d0, qh, dh)}
    odd = [a for m in to_poly(P) for a, _ in m if a not in known]
    stale = [a for a in odd if a[0] == 'elt' and a[1][0] == 'aphi' and a[2] == T.BIND]
    if stale and len(stale) == len(odd):
        rep.bad('spline:order', 'fails: the interpolant takes the given states and derivatives (a coefficient is used before it is computed: %s)' % fmt(stale[0])[:60], where)
        return
    if any(contains(a, lambda y: y[0] in ('unk', 'afin', 'aphi')) for a in odd):
        rep.und('spline', 'a coefficient has the form %s' % fmt(odd[0])[:80])
        return
    at = lambda t, v: subst(t, lambda x: v if x == X else None)
    dP = deriv(P, X)
    for t, v, w, key, what in ((P, num(0), E(q0), 'q0', 'the given state at the start'), (P, H, E(qh), 'qh', 'the given state at the end'),
                               (dP, num(0), E(d0), 'dq0', 'the given derivative at the start'), (dP, H, E(dh), 'dqh', 'the given derivative at the end')):
        got = at(t, v)
        d = sub(got, w)
        if d == num(0):
            rep.ok('spline:%s: the interpolant takes %s' % (key, what))
        else:
            rep.bad('spline:' + key, 'fails: the interpolant takes %s (%s)' % (what, fmt(got)[:120]), where)
    deg = max([k for m in to_poly(P) for a, k in m if a == X] or [0])
    rep.check(deg <= 3, 'spline:degree', 'the interpolant is a cubic', where)
