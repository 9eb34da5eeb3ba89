"""T01-T03: time types, tolerant comparison, pin identities.

The functions are straight comparisons and sums; their path summaries are conditions over a handful of
quantities.  The rules split the values of those quantities into the finitely many cells that the
conditions can tell apart (orderings, and the thresholds that occur in the code) and require the law
in each cell, which covers every value.
"""
from itertools import product
from rulelib import *

F = Fraction


def leaves(t, out):
    for m in to_poly(t):
        for x, _ in m:
            out.add(x)
    return out


def evalp(t, env):
    v = F(0)
    for m, c in to_poly(t).items():
        for x, e in m:
            if x not in env:
                return None
            c = c * env[x] ** e
        v += c
    return v


def truth(a, env):
    """truth of an atom at a point, None when it depends on something else"""
    if a[0] in ('pos', 'ipos', 'zero'):
        v = evalp(a[1], env)
        return None if v is None else (v == 0 if a[0] == 'zero' else v > 0)
    if a[0] in ('eq', 'lt') and len(a) == 3:
        x, y = evalp(a[1], env), evalp(a[2], env)
        return None if x is None or y is None else (x == y if a[0] == 'eq' else x < y)
    return None


def polys(a):
    if a[0] in ('pos', 'ipos', 'zero'):
        return [a[1]]
    if a[0] in ('eq', 'lt') and len(a) == 3:
        return [sub(a[1], a[2])]
    return None


class Cells:
    """cells of the plane of differences DT = a.t - b.t and DK = a.k - b.k"""
    def __init__(self, groups, ints):
        self.groups, self.ints = groups, ints     # [(a, b)], [bool]
        self.br = [{F(0)} for _ in groups]
        self.exact = True

    def see(self, facts):
        for a in facts:
            ps = polys(a)
            if ps is None:
                self.exact = False
                continue
            for p in ps:
                q = to_poly(p)
                hit = []
                ok = True
                for i, (x, y) in enumerate(self.groups):
                    cx = q.get(((x, 1),), F(0))
                    cy = q.get(((y, 1),), F(0))
                    if cx or cy:
                        hit.append((i, cx))
                        ok = ok and cx == -cy
                known = {()} | {((z, 1),) for g in self.groups for z in g}
                if any(m not in known for m in q) or not ok or len(hit) > 1:
                    self.exact = False
                    continue
                if hit:
                    i, c = hit[0]
                    self.br[i].add(-q.get((), F(0)) / c)

    def points(self):
        axes = []
        for b, isint in zip(self.br, self.ints):
            s = sorted(b)
            v = set(s) | {s[0] - 1, s[-1] + 1} | {(x + y) / 2 for x, y in zip(s, s[1:])}
            if isint:
                v = {F(int(x)) for x in v if x.denominator == 1} | {F(x.numerator // x.denominator) for x in v} | \
                    {F(-((-x.numerator) // x.denominator)) for x in v} | {s[0] - 1, s[-1] + 1}
                v = {x for x in v if x.denominator == 1}
            axes.append(sorted(v))
        bases = [F(0)] if self.exact else [F(0), F(1), F(-1), F(3), F(-3)]
        for d in product(*axes):
            for bs in product(bases, repeat=len(axes)):
                env = {}
                for (x, y), dd, b in zip(self.groups, d, bs):
                    env[x], env[y] = b + dd, b
                yield d, env


def select(states, env):
    """the paths taken at a point: (certain, possible)"""
    sure, may = [], []
    for s in states:
        ts = [truth(a, env) for a in s.facts]
        ws = list(s.facts.values())
        if any(t is not None and t != w for t, w in zip(ts, ws)):
            continue
        may.append(s)
        if all(t is not None for t in ts):
            sure.append(s)
    return sure, may


def pure(sm):
    """nothing but locals is changed"""
    return not any(e.k in ('wr', 'mut', 'delete', 'rmw') and not is_localish(e.obj) for s in sm.states for e in events(s.trace))


def is_localish(l):
    while l is not None and len(l) > 1:
        if l[0] in ('v', 't', 'local', 'tmp'):
            return True
        l = l[1] if isinstance(l[1], tuple) else None
    return False


def boolval(out):
    if out and out[0] == 'ret':
        t = out[1]
        if t and t[0] == 'b':
            return t[1]
        if t and t[0] == 'num':
            return t[1] != 0
    return None


REL = {'operator<': lambda c: c < 0, 'operator<=': lambda c: c <= 0, 'operator>': lambda c: c > 0, 'operator>=': lambda c: c >= 0,
       'operator==': lambda c: c == 0, 'operator!=': lambda c: c != 0}


def sgn(x):
    return (x > 0) - (x < 0)


def same_param(p, f, cls):
    return len(f['params']) == 1 and cls in p.t(f['params'][0]['t'])


# ------------------------------------------------------------------ T01
SIGNED = {'bool': 1, 'signed char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}


def direct_rule(rep, p, f, key):
    """a comparison of integers does not go through a sum or difference that leaves their range"""
    bad, seen, todo = [], set(), [f]

    def width(n):
        """range of the value of an expression in bits, counting widened operands with their own range"""
        t = p.t(n['t']).replace('const ', '') if 't' in n else ''
        if n.get('k') == 'cast' and isinstance(n.get('e'), dict):
            w = width(n['e'])
            return w if w is not None and (SIGNED.get(t) or 99) >= w else SIGNED.get(t)
        return SIGNED.get(t)

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') in ('bin', 'casg') and n.get('op') in ('-', '+', '*') and 't' in n:
            t = p.t(n['t']).replace('const ', '').replace(' &', '')
            ws = [width(x) for x in (n['a'], n['b']) if x.get('k') != 'int']
            if t in SIGNED and ws and all(w is not None for w in ws) and max(ws) >= SIGNED[t]:
                bad.append(n)
        if n.get('k') == 'call' and isinstance(n.get('f'), dict):
            g = p.fn.get(n['f'].get('id'))
            if g is not None and g.get('cls') == f.get('cls') and id(g) not in seen:
                seen.add(id(g))
                todo.append(g)
        for x in n.values():
            go(x)
    while todo:
        go(todo.pop().get('body'))
    if bad:
        rep.bad(key + ':range', 'fails: integers are compared themselves, not by a difference that can leave their range', p.where(bad[0].get('l')))
    else:
        rep.ok(key + ':range: no comparison goes through a difference that can leave the range of its operands')


def numfields(p, r):
    """(ordering fields of the superdense time): the real part and the integer part"""
    fs = [(f['n'], p.t(f['t'])) for f in r['f']]
    if len(fs) != 2:
        raise Undecided('the superdense time has other members')
    k = [n for n, t in fs if t in ('int', 'long', 'unsigned int') and n == 'k'] or [fs[1][0]]
    t = [n for n, _ in fs if n != k[0]]
    return t[0], k[0]


def compare_rule(rep, sm, groups, ints, want, key, what):
    """each path of a comparison yields what the order of the quantities demands"""
    C = Cells(groups, ints)
    for s in sm.states:
        C.see(s.facts)
    n = 0
    for d, env in C.points():
        sure, may = select(sm.states, env)
        if len(sure) == 1 and len(may) == 1:
            v = boolval(sure[0].out)
            w = want(env)
            n += 1
            if v is None:
                rep.und(key, 'the result has another form: %s' % (sure[0].out,))
                return
            if v != w:
                rep.bad(key, 'fails: %s (%s when the differences are %s)' % (what, 'true' if v else 'false', ', '.join(map(str, d))), sm.where)
                return
        else:
            rep.und(key, 'depends on something else')
            return
    if not C.exact:
        rep.und(key, 'conditions on more than the differences')
        return
    if not pure(sm):
        rep.und(key, 'the comparison has effects')
        return
    rep.ok('%s: %s (%d cells)' % (key, what, n))


def sum_rule(cx, rep, p, cls, inst, T, K, tint):
    """a + (b - a) arrives at b, for both spellings, and moves forward for intervals above zero"""
    def variants(op, opeq):
        out = []
        for f in p.find(cls, op, nparams=1):
            if inst(f):
                out.append((op, cx.summary('core', f, 'time').use(rep), False))
        for f in p.find(cls, opeq, nparams=1):
            if inst(f):
                out.append((opeq, cx.summary('core', f, 'time').use(rep), True))
        return out
    A = {k: ('p', 'a.' + k, 0) for k in (T, K) if k}
    B = {k: ('p', 'b.' + k, 1) for k in (T, K) if k}
    H = {k: ('p', 'h.' + k, 2) for k in (T, K) if k}

    def instance(sm, left, right, inplace):
        """paths with the operand values left (this) and right (parameter)"""
        rp = ('p', sm.fn['params'][0]['n'], 0)

        def f(x):
            x2 = deld(x) if x[0] == 'ld' else x
            if x2[0] == 'ld' and x2[1][0] == 'f':
                own, n = x2[1][1], x2[1][2]
                if n in left and own == ('this',):
                    return left[n]
                if n in right and own == rp:
                    return right[n]
            return None
        res = []
        for s in sm.normal():
            facts = {}
            for a, v in s.facts.items():
                facts[subst(a, f)] = v
            vals = {}
            if inplace:
                for k in left:
                    l = ('f', ('this',), k)
                    v = s.mem.get(l)
                    vals[k] = left[k] if v is None else subst(v, f)
            else:
                o = s.out[1] if s.out and s.out[0] == 'ret' else None
                for k in left:
                    vals[k] = subst(get(o, k), f) if o is not None else ('unk', 'ret')
            res.append((facts, vals))
        return res

    def lin(v):
        return not any(x[0] != 'p' for x in leaves(v, set()))
    groups = [(B[k], A[k]) for k in (T, K) if k]
    ints = [tint, True][:len(groups)]
    minus, plus = variants('operator-', 'operator-='), variants('operator+', 'operator+=')
    if not minus or not plus:
        raise Broken('%s has no arithmetic' % cls)
    for mo, ms, mi in minus:
        for po, ps, pi in plus:
            key = '%s:%s%s' % (sm_name(ms), mo, po)
            combos = []
            for mf, mv in instance(ms, B, A, mi):
                for pf, pv in instance(ps, A, mv, pi):
                    class S:
                        pass
                    s = S()
                    s.facts = {}
                    s.facts.update(mf)
                    clash = False
                    for a, v in pf.items():
                        if a in s.facts and s.facts[a] != v:
                            clash = True
                        s.facts[a] = v
                    if clash:
                        continue
                    # re-normalise constants produced by the substitution
                    s.vals = pv
                    combos.append(s)
            C = Cells(groups, ints)
            for s in combos:
                C.see(s.facts)
            good = True
            n = 0
            for d, env in C.points():
                sure, may = select(combos, env)
                if len(sure) != 1 or len(may) != 1:
                    rep.und(key, 'depends on something else')
                    good = None
                    break
                for k in (T, K):
                    if not k:
                        continue
                    v = sure[0].vals[k]
                    # inside the cell: equalities between the operands hold
                    e = sub(v, B[k])
                    for (x, y), dd in zip(groups, d):
                        if dd == 0:
                            e = subst(e, lambda z: y if z == x else None)
                    if not lin(e):
                        good = None
                    elif e != num(0):
                        # outside the cells a difference of polynomials vanishes nowhere in general
                        pt = evalp(e, env)
                        if pt is not None and pt != 0 or C.exact:
                            rep.bad(key, 'fails: advancing to another instant by the interval to it arrives there (%s differs when the differences are %s)'
                                    % (k, ', '.join(map(str, d))), ms.where)
                            good = False
                            break
                        good = None
                n += 1
                if good is False:
                    break
            if good and C.exact:
                rep.ok('%s: advancing to another instant by the interval to it arrives there exactly (%d cells)' % (key, n))
            elif good is not False:
                rep.und(key, 'the sums have another form')
    # forward
    for po, ps, pi in plus:
        key = '%s:%s:forward' % (sm_name(ps), po)
        res = []
        for pf, pv in instance(ps, A, H, pi):
            class S:
                pass
            s = S()
            s.facts, s.vals = pf, pv
            res.append(s)
        ok = True
        axes = [[F(0), F(1, 2), F(1), F(7)], [F(-3), F(0), F(1), F(5)]][:len(groups)]
        n = 0
        for h in product(*axes):
            if not (h[0] > 0 or (len(h) > 1 and h[0] == 0 and h[1] > 0)) or (tint and h[0].denominator != 1):
                continue
            for base in product([F(0), F(2), F(-2)], repeat=len(groups)):
                env = {}
                for i, k in enumerate([x for x in (T, K) if x]):
                    env[A[k]], env[H[k]] = base[i], h[i]
                sure, may = select(res, env)
                if len(sure) != 1 or len(may) != 1:
                    ok = None
                    break
                v = [evalp(sure[0].vals[k], env) for k in (T, K) if k]
                if any(x is None for x in v):
                    ok = None
                    break
                n += 1
                a = [env[A[k]] for k in (T, K) if k]
                if not v > a:
                    ok = False
                    rep.bad(key, 'fails: advancing by an interval above zero moves forward (by %s from %s to %s)'
                            % tuple(','.join(map(str, x)) for x in (h, a, v)), ps.where)
                    break
            if not ok:
                break
        if ok:
            # linear in the operands with fixed choice by the sign of the interval: the points stand for their cells
            simple = all(lin(s.vals[k]) for s in res for k in (T, K) if k) and \
                all(polys(a) is not None and set(leaves(polys(a)[0], set())) <= set(H.values()) for s in res for a in s.facts)
            if simple:
                rep.ok('%s: advancing by an interval above zero moves forward (%d cases)' % (key, n))
            else:
                rep.und(key, 'the sum has another form')
        elif ok is None:
            rep.und(key, 'depends on something else')


def sm_name(sm):
    return sm.fn.get('cls', sm.fn['q']).replace('adevs::', '')


LIMS = {'float': F(2) ** 128, 'double': F(2) ** 1024, 'long double': F(2) ** 16384,
        'int': F(2) ** 31 - 1, 'long': F(2) ** 63 - 1, 'long long': F(2) ** 63 - 1, 'short': F(2) ** 15 - 1, 'unsigned int': F(2) ** 32 - 1}
FLTS = ('float', 'double', 'long double')


def constval(t):
    """a number standing for the constant: exact, except that the floating limits are rounded up"""
    if t[0] == 'num':
        return t[1]
    if t[0] == 'b':
        return F(int(t[1]))
    if t[0] == 'poly':
        v = F(0)
        for m, c in t[1]:
            for x, e in m:
                xv = constval(x)
                if xv is None:
                    return None
                c = c * xv ** e
            v += c
        return v
    s = None
    if t[0] == 'c' and isinstance(t[1], str):
        s = t[1]
    elif len(t) >= 2 and isinstance(t[1], str):
        s = t[1]
    m = re.match(r'^(?:lim:)?(\w+):(.*)$', s or '')
    if m and m.group(2) in LIMS:
        k, ty = m.groups()
        mx = LIMS[ty]
        if k == 'max':
            return mx
        if k == 'infinity' and ty in FLTS:
            return mx * 4
        if k == 'lowest':
            return -mx if ty in FLTS else -mx - 1
        if k == 'min':
            return 1 / mx if ty in FLTS else (-mx - 1 if not ty.startswith('unsigned') else F(0))
        if k == 'epsilon':
            return F(1, 2 ** 23) if ty == 'float' else F(1, 2 ** 52) if ty in FLTS else F(0)
    return None


def limval(t):
    r = constval(t)
    return r


def T01(cx, rep):
    """path summaries of all operators and constants of the time types, compared in every ordering cell of their operands"""
    p = cx.prog('core')
    recs = [r for r in p.recb.get('adevs::sd_time', [])]
    if not recs:
        raise Broken('adevs::sd_time is gone')
    for r in recs:
        cls = r['n']
        T, K = numfields(p, r)
        ft = {f['n']: p.t(f['t']) for f in r['f']}
        tint = ft[T] not in FLTS
        inst = lambda f: f.get('cls') == cls
        seen = 0
        for op, w in REL.items():
            fs = [f for f in p.find('adevs::sd_time', op) if inst(f) and len(f['params']) == 1]
            if not fs:
                rep.und('%s:%s' % (cls, op), 'operator is not a member')
            for f in fs:
                seen += 1
                sm = cx.summary('core', f, 'time').use(rep)
                P = ('p', f['params'][0]['n'], 0)
                lf = {}
                for who, ptr in (('a', ('this',)), ('b', P)):
                    for k in (T, K):
                        lf[who, k] = ('ld', ('f', ptr, k), 0)
                groups = [(lf['a', T], lf['b', T]), (lf['a', K], lf['b', K])]

                def want(env, w=w, lf=lf):
                    x = [env[lf['a', k]] for k in (T, K)]
                    y = [env[lf['b', k]] for k in (T, K)]
                    return w((x > y) - (x < y))
                compare_rule(rep, sm, groups, [tint, True], want, '%s:%s' % (cls.replace('adevs::', ''), op),
                             'the comparison is the lexicographic order of real and integer part')
        for op in REL:
            for f in p.find('adevs::sd_time', op):
                if inst(f) and len(f['params']) == 1:
                    direct_rule(rep, p, f, '%s:%s' % (cls.replace('adevs::', ''), op))
        if not seen:
            raise Broken('%s has no comparisons' % cls)
        sum_guard(cx, rep, p, 'adevs::sd_time', inst, T, K, tint)
        # construction, copying, observation
        for f in p.find('adevs::sd_time', 'sd_time'):
            if not inst(f):
                continue
            sm = cx.summary('core', f, 'time').use(rep)
            for s in sm.normal():
                got = {k: s.mem.get(('f', ('this',), k)) for k in (T, K)}
                if len(f['params']) == 2:
                    want = {k: ('p', x['n'], i) for i, (k, x) in enumerate(zip((T, K), f['params']))}
                elif len(f['params']) == 1 and 'sd_time' in p.t(f['params'][0]['t']):
                    want = {k: ('ld', ('f', ('p', f['params'][0]['n'], 0), k)) for k in (T, K)}
                elif not f['params']:
                    want = {T: num(0), K: num(0)}
                else:
                    continue
                fieldcheck(rep, got, want, '%s:ctor%d' % (cls.replace('adevs::', ''), len(f['params'])), 'a time is built from the parts it is given', sm.where)
        for f in p.find('adevs::sd_time', 'operator='):
            if inst(f) and len(f['params']) == 1:
                sm = cx.summary('core', f, 'time').use(rep)
                for s in sm.normal():
                    got = {k: s.mem.get(('f', ('this',), k)) for k in (T, K)}
                    want = {k: ('ld', ('f', ('p', f['params'][0]['n'], 0), k)) for k in (T, K)}
                    fieldcheck(rep, got, want, '%s:assign' % cls.replace('adevs::', ''), 'assignment copies both parts', sm.where)
        for nm, k in (('real', T), ('integer', K)):
            for f in p.find('adevs::sd_time', nm):
                if inst(f) and not f['params']:
                    sm = cx.summary('core', f, 'time').use(rep)
                    for s in sm.normal():
                        v = s.out[1] if s.out else None
                        ok = v is not None and deld(v) == ('ld', ('f', ('this',), k))
                        rep.check(True if ok else (None if v is None or vague(v) or s.facts else False), '%s:%s' % (cls.replace('adevs::', ''), nm),
                                  'the part is reported as it is', sm.where)
    # the tolerant double: sums of the numbers
    dr = rec(p, 'adevs::double_fcmp')
    if len(dr['f']) == 1:
        d = dr['f'][0]['n']
        sum_guard(cx, rep, p, 'adevs::double_fcmp', lambda f: same_param(p, f, 'double_fcmp'), d, None, False)
        for f in p.find('adevs::double_fcmp', 'double_fcmp') + p.find('adevs::double_fcmp', 'operator='):
            if len(f['params']) == 1:
                sm = cx.summary('core', f, 'time').use(rep)
                P = ('p', f['params'][0]['n'], 0)
                for s in sm.normal():
                    got = {d: s.mem.get(('f', ('this',), d))}
                    want = {d: ('ld', ('f', P, d)) if 'double_fcmp' in p.t(f['params'][0]['t']) else P}
                    fieldcheck(rep, got, want, 'double_fcmp:%s' % f['n'].replace('double_fcmp', 'ctor'), 'the value is taken as given', sm.where)
    constants(cx, rep, p)


def sum_guard(cx, rep, p, cls, inst, T, K, tint):
    try:
        sum_rule(cx, rep, p, cls, inst, T, K, tint)
    except Undecided as e:
        rep.und(cls + ' sums', str(e))


def fieldcheck(rep, got, want, key, what, where):
    for k, w in want.items():
        g = got[k]
        if g is None:
            rep.und(key, '%s of the result is not set directly' % k)
        else:
            ok = deld(g) == w
            rep.check(True if ok else (None if vague(g) else False), '%s:%s' % (key, k), what, where)


def constants(cx, rep, p):
    C = {}
    where = {}
    for nm in ('adevs_inf', 'adevs_zero', 'adevs_sentinel', 'adevs_epsilon'):
        fs = p.byq.get(('', nm), [])
        if not fs:
            raise Broken('%s is gone' % nm)
        for f in fs:
            sm = cx.summary('core', f, 'time').use(rep)
            ty = p.t(f['rt'])
            for s in sm.normal():
                C.setdefault(ty, {}).setdefault(nm, []).append((s, sm))
                where[ty] = sm.where
    for ty, d in sorted(C.items()):
        key = 'constants:' + ty.replace('adevs::', '').replace(' ', '')
        vals = {}
        for nm, l in d.items():
            if len(l) != 1 or l[0][0].facts or l[0][0].out is None:
                rep.und('%s:%s' % (key, nm), 'not a constant')
                continue
            s, sm = l[0]
            v = s.out[1]
            comps = []
            if 'sd_time' in ty:
                r = p.records.get(ty) or rec(p, 'adevs::sd_time')
                T, K = numfields(p, r)
                comps = [get(v, T), get(v, K)]
            elif 'double_fcmp' in ty:
                comps = [get(v, rec(p, 'adevs::double_fcmp')['f'][0]['n'])]
            else:
                comps = [v]
            cv = [limval(c) for c in comps]
            if any(c is None for c in cv):
                rep.und('%s:%s' % (key, nm), 'value %s is not known' % ', '.join(fmt(c) for c in comps))
                continue
            vals[nm] = (cv, sm.where)

        def ordered(a, b, strict, what):
            if a in vals and b in vals:
                x, y = vals[a][0], vals[b][0]
                rep.check(x < y if strict else x <= y, '%s:%s<%s' % (key, a, b), what, vals[a][1])
        ordered('adevs_sentinel', 'adevs_zero', True, 'the sentinel is below zero')
        ordered('adevs_zero', 'adevs_epsilon', False, 'zero is not above the smallest increment')
        ordered('adevs_epsilon', 'adevs_inf', True, 'infinity is above the smallest increment')
        ordered('adevs_zero', 'adevs_inf', True, 'infinity is above zero')
        ordered('adevs_sentinel', 'adevs_inf', True, 'infinity is above the sentinel')
        if 'adevs_inf' in vals:
            fts = [x for x in re.findall(r'long double|double|float|long|int', ty)]
            if 'sd_time' in ty:
                r = p.records.get(ty) or rec(p, 'adevs::sd_time')
                fts = [p.t(f['t']) for f in r['f']]
                T, K = numfields(p, r)
                if [f['n'] for f in r['f']] != [T, K]:
                    fts = fts[::-1]
            elif 'double_fcmp' in ty:
                fts = ['double']
            mx = [LIMS.get(t) for t in fts]
            if None in mx or len(mx) != len(vals['adevs_inf'][0]):
                rep.und(key + ':inf', 'limits of %s' % fts)
            else:
                rep.check(vals['adevs_inf'][0] >= [m * (1 - F(1, 10 ** 6)) if t in FLTS else m for m, t in zip(mx, fts)], key + ':inf', 'no finite value of the type is above infinity', vals['adevs_inf'][1])
        if 'adevs_zero' in vals:
            rep.check(all(x == 0 for x in vals['adevs_zero'][0]), key + ':zero', 'zero is the empty interval', vals['adevs_zero'][1])
        if 'adevs_epsilon' in vals:
            want = [F(0), F(1)] if 'sd_time' in ty else [F(0)]
            rep.check(vals['adevs_epsilon'][0] == want, key + ':epsilon',
                      'the increment of superdense time is (0,1), that of real and integer time is zero', vals['adevs_epsilon'][1])


# ------------------------------------------------------------------ T02
FC = ('adevs::double_fcmp', 'fcmp')


def T02(cx, rep):
    """path summaries of the tolerant comparison in every ordering of operands, magnitudes and tolerance; every relational operator against its sign"""
    p = cx.prog('core')
    for f in need(p, *FC):
        sm = cx.summary('core', f, 'time').use(rep)
        if len(f['params']) != 3:
            raise Undecided('fcmp has another signature')
        fcmp_rule(rep, sm, f)
    r = rec(p, 'adevs::double_fcmp')
    d = r['f'][0]['n'] if len(r['f']) == 1 else None
    if d is None:
        raise Undecided('double_fcmp has other members')
    cfg = M.time()
    cfg.opaque = set(cfg.opaque) | {FC}
    n = 0
    for op, w in REL.items():
        fs = p.find('adevs::double_fcmp', op, nparams=1)
        free = [f for f in p.byq.get(('', op), []) if len(f['params']) == 2 and all('double_fcmp' in p.t(x['t']) or 'double' == strip(p.t(x['t'])) for x in f['params'])]
        fs = fs + free
        own = [f for f in fs if all('double_fcmp' in p.t(x['t']) for x in f['params'])]
        if not own and not any(p.t(x['t']).strip() in ('double', 'const double &') for f in fs for x in f['params']):
            if op == 'operator!=' and os.environ.get('VERIF_STD', 'c++17') >= 'c++20':
                continue
            rep.bad('%s:missing' % op, 'fails: %s of two tolerant times is not defined by the tolerant comparison (the operands convert to plain numbers)'
                    % op, p.where(r['l']))
            continue
        for f in fs:
            n += 1
            sm = cx.summary('core', f, 'time#fcmp', cfg=cfg).use(rep)
            op_rule(rep, p, sm, f, d, op, w)
    if not n:
        raise Broken('double_fcmp has no comparisons')


def op_rule(rep, p, sm, f, d, op, w):
    key = '%s(%s)' % (op, ','.join(p.t(x['t']) for x in f['params']).replace('adevs::', ''))
    ops = []
    if f.get('clsb'):
        ops.append(('ld', ('f', ('this',), d)))
    for i, x in enumerate(f['params']):
        P = ('p', x['n'], i)
        ops.append(('ld', ('f', P, d)) if 'double_fcmp' in p.t(x['t']) else P)
    if len(ops) != 2:
        rep.und(key, 'another signature')
        return
    bad = None
    for s in sm.normal():
        v = boolval(s.out)
        calls = [e for e in s.trace if e.k == 'call' and e.name == 'fcmp']
        other = [e for e in s.trace if e not in calls]
        if v is None or other:
            rep.und(key, 'the result has another form')
            return
        env0 = {}
        signs = []
        for i, e in enumerate(calls):
            a = [deld(val(x)) for x in e.args]
            # by-reference operands: fields of the parameter objects
            a = [norm_operand(x, f, d, p) for x in a]
            eps = a[2]
            ok_eps = eps == ('ld', ('g', 'adevs::double_fcmp::epsilon'))
            if a[:2] == ops:
                sg = 1
            elif a[:2] == ops[::-1]:
                sg = -1
            else:
                if vague(a[0]) or vague(a[1]):
                    rep.und(key, 'operands')
                else:
                    rep.bad(key, 'fails: the operands are compared (%s and %s are)' % (fmt(a[0]), fmt(a[1])), sm.where)
                return
            if not ok_eps:
                if vague(eps):
                    rep.und(key, 'tolerance')
                else:
                    rep.bad(key + ':tolerance', 'fails: the tolerance in force decides (%s does)' % fmt(eps), sm.where)
                return
            signs.append(sg)
        rets = [t for t in retleaves(s)]
        for c, dd in ((-1, -1), (0, -1), (0, 0), (0, 1), (1, 1)):
            env = {}
            for o, ov in zip(ops, (F(dd), F(0))):
                env[o if o[0] == 'p' else o + (0,)] = ov
            for t in rets:
                i = t[2] - 1 if isinstance(t[2], int) else None
                if i is None or not (0 <= i < len(signs)):
                    rep.und(key, 'the result has another form')
                    return
                env[t] = F(c * signs[i])
            ts = [truth(a, env) for a in s.facts]
            if any(t is None for t in ts):
                # something besides the comparison decides
                bads = [a for a, t in zip(s.facts, ts) if t is None]
                plain = operand_atoms(bads, f, d)
                if plain and not calls:
                    bad = (s, None)
                    break
                rep.und(key, 'something else decides')
                return
            if any(t != wv for t, wv in zip(ts, s.facts.values())):
                continue
            if not calls:
                bad = (s, c)
                break
            if v != w(c):
                rep.bad(key, 'fails: the operator agrees with the tolerant comparison (%s when it gives %d)' % (v, c), sm.where)
                return
        if bad:
            break
    if bad:
        rep.bad(key, 'fails: the tolerant comparison decides (the result does not depend on it)', sm.where)
        return
    rep.ok('%s: the operator is the sign of the tolerant comparison of its operands with the tolerance in force' % key)


def operand_atoms(atoms, f, d):
    for a in atoms:
        ps = polys(a)
        if ps is None:
            return False
        for q in ps:
            for x in leaves(q, set()):
                y = deld(x) if x[0] == 'ld' else x
                if not (y[0] == 'p' or (y[0] == 'ld' and y[1][0] == 'f' and y[1][2] == d)):
                    return False
    return True


def norm_operand(x, f, d, p):
    return x


def retleaves(s):
    out = set()
    for a in s.facts:
        for q in (polys(a) or []):
            for x in leaves(q, set()):
                if x[0] == 'ret' and x[1] == 'fcmp':
                    out.add(x)
    return out


def fcmp_rule(rep, sm, f):
    x1, x2, ep = [('p', x['n'], i) for i, x in enumerate(f['params'])]
    A1, A2 = ap('abs', x1), ap('abs', x2)
    states = sm.normal()
    # the tolerance terms: anything that is not an operand or a magnitude
    deltas = set()
    for s in states:
        for a in s.facts:
            for q in (polys(a) or []):
                for t in leaves(q, set()):
                    if t not in (x1, x2, A1, A2, ep) and absof(t) is None:
                        deltas.add(t)
        if polys_unknown(s):
            raise Undecided('fcmp decides by something else')

    absd = set(t for s in states for a in s.facts for q in (polys(a) or []) for t in leaves(q, set()) if absof(t) is not None)

    def scale_of(t):
        """which operand's magnitude the tolerance term is computed from"""
        if t[0] != 'ap' or t[1] not in ('ldexp', 'scalbn', 'scalbln', 'scalb'):
            return None
        pl = ap_payload(t)
        if pl[0] != ep:
            return None
        h1 = contains(pl[1:], lambda y: y in (x1, A1))
        h2 = contains(pl[1:], lambda y: y in (x2, A2))
        even = contains(pl[1:], lambda y: isinstance(y, tuple) and len(y) > 1 and y[0] == 'ap' and isinstance(y[1], str) and ('frexp' in y[1] or 'ilogb' in y[1] or 'logb' in y[1] or y[1] == 'abs'))
        if not h1 and not h2 and not contains(pl[1:], lambda y: isinstance(y, tuple) and len(y) > 1 and (y[0] in ('p', 'ld') or y[0] in VAGUE)):
            return 0        # the same for all operands
        if h1 == h2 or not even:
            return None
        # nothing but the exponent of the operand
        return 1 if h1 else 2
    sc = {}
    for t in deltas:
        k = scale_of(t)
        if k is None:
            raise Undecided('the tolerance %s has another form' % fmt(t))
        sc[t] = k
    pts = [F(-2), F(-1), F(0), F(1), F(2)]
    n = 0
    for v1, v2 in product(pts, repeat=2):
        D = v1 - v2
        big = 1 if abs(v1) > abs(v2) else 2 if abs(v2) > abs(v1) else 0
        # tolerance cells: zero, below, at and above the distance
        for dl in sorted({F(0), abs(D) / 2, abs(D), abs(D) + 1}):
            env = {x1: v1, x2: v2, A1: abs(v1), A2: abs(v2), ep: None}
            del env[ep]
            for t in absd:
                v = evalp(absof(t), {x1: v1, x2: v2})
                if v is not None:
                    env[t] = abs(v)
            for t, k in sc.items():
                # the tolerance of the smaller operand is smaller: a factor of two at least, or any smaller amount
                # (a tolerance that does not depend on the operands can be so as well, unless both are zero)
                env[t] = dl if big in (0, k) and (k or v1 == v2 == 0) else dl / 4
            sure, may = select(states, env)
            if len(sure) != 1 or len(may) != 1:
                raise Undecided('fcmp depends on something else')
            s = sure[0]
            o = s.out[1] if s.out else None
            if o is None or o[0] != 'num':
                raise Undecided('the result of fcmp has another form')
            w = 0 if abs(D) <= dl else sgn(D)
            n += 1
            if sgn(o[1]) != w:
                if v1 == v2:
                    rep.bad('fcmp:equal', 'fails: identical values compare equal', sm.where)
                else:
                    rep.bad('fcmp:sign', 'fails: the comparison is the sign of the difference unless it is within the tolerance of the larger magnitude '
                            '(gives %s for operands ordered like %s and %s and a tolerance of %s times their distance)'
                            % (o[1], v1, v2, dl / abs(D) if D else dl), sm.where)
                return
            if o[1] not in (-1, 0, 1):
                rep.bad('fcmp:unit', 'fails: the comparison gives -1, 0 or 1', sm.where)
                return
    # completeness: every condition is a sign of magnitudes or of difference against tolerance
    for s in states:
        for a in s.facts:
            for q in polys(a):
                pq = to_poly(q)
                lf = {m[0][0]: c for m, c in pq.items() if len(m) == 1 and m[0][1] == 1}
                if len(lf) != len(pq) or any(abs(c) != 1 for c in lf.values()):
                    raise Undecided('fcmp compares multiples')
                if not (set(lf) <= {A1, A2} or set(lf) <= {x1, x2} | set(sc) and lf.get(x1, 0) == -lf.get(x2, 0) or set(lf) <= {x1, x2} and len(lf) <= 2
                        or set(lf) <= {x1, x2, A1, A2} and len(lf) <= 2 or (len(lf) <= 2 and set(lf) <= {t for t in absd if absof(t) in (sub(x1, x2), sub(x2, x1))} | set(sc))):
                    raise Undecided('fcmp compares something else')
    rep.ok('fcmp: the comparison is the sign of the difference unless it is within the tolerance scaled by the larger magnitude (%d cells)' % n)
    rep.ok('fcmp: exchanging the operands gives the opposite answer (the %d cells are closed under exchange)' % n)


def absof(t):
    if t[0] == 'ap' and t[1] == 'abs' and len(ap_payload(t)) == 1 and is_poly_like(ap_payload(t)[0]):
        return ap_payload(t)[0]
    return None


def polys_unknown(s):
    return any(polys(a) is None for a in s.facts)


# ------------------------------------------------------------------ T03
def idfield(p):
    r = rec(p, 'adevs::pin_t')
    if len(r['f']) != 1:
        raise Undecided('pins have other members')
    return r['f'][0]['n'], p.t(r['f'][0]['t'])


def T03(cx, rep):
    """path summaries of the constructors, assignments and comparisons of pins and events; single atomic update of the identity counter"""
    p = cx.prog('core')
    idn, idt = idfield(p)
    ID = ('f', ('this',), idn)
    short = idt in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool')
    rep.check(False if short else (True if re.match(r'^(unsigned )?(int|long|long long)$', idt) else None), 'pin:width',
              'the identity is wide enough for every pin of a program (%s)' % idt, p.where(rec(p, 'adevs::pin_t')['l']))
    got = 0
    for f in p.find('adevs::pin_t', 'pin_t'):
        sm = cx.summary('core', f, 'time').use(rep)
        if not f['params']:
            got += 1
            fresh(rep, p, sm, f, ID, idt)
        elif len(f['params']) == 1 and 'pin_t' in p.t(f['params'][0]['t']):
            for s in sm.normal():
                fieldcheck(rep, {idn: s.mem.get(ID)}, {idn: ('ld', ('f', ('p', f['params'][0]['n'], 0), idn))}, 'pin:copy', 'a copy has the identity of its source', sm.where)
                nocount(rep, s, sm, 'pin:copy', ID)
    if not got:
        raise Broken('pins cannot be created')
    for f in p.find('adevs::pin_t', 'operator='):
        sm = cx.summary('core', f, 'time').use(rep)
        P = ('p', f['params'][0]['n'], 0)
        for s in sm.normal():
            v = s.mem.get(ID)
            if v is None and selfassign(s, P):
                rep.ok('pin:assign: self assignment leaves the pin alone')
                continue
            if v is None and already(s, P, idn):
                rep.ok('pin:assign: nothing to do for equal identities')
                continue
            if v is None and not any(e.k in ('wr', 'call', 'mut', 'touch') for e in events(s.trace)) and not vague_path(s.facts):
                rep.bad('pin:assign', 'fails: an assigned pin has the identity of its source (it is not assigned)', sm.where)
                continue
            fieldcheck(rep, {idn: v}, {idn: ('ld', ('f', P, idn))}, 'pin:assign', 'an assigned pin has the identity of its source', sm.where)
            nocount(rep, s, sm, 'pin:assign', ID)
    # comparisons: one total order on identities, in either direction
    res = {}
    for op, w in REL.items():
        for f in p.find('adevs::pin_t', op, nparams=1):
            sm = cx.summary('core', f, 'time').use(rep)
            P = ('p', f['params'][0]['n'], 0)
            a, b = ('ld', ID, 0), ('ld', ('f', P, idn), 0)
            tries = {}
            for name, sg in (('up', 1), ('down', -1)):
                t = Rep('T03')
                compare_rule(t, sm, [(a, b)], [True], lambda env, sg=sg: w(sg * sgn(env[a] - env[b])), 'pin:' + op, 'the comparison is that of the identities')
                tries[name] = t
            res[op] = (tries, sm)
    if not res:
        raise Broken('pins cannot be compared')
    for name in ('up', 'down'):
        if all(not t[name].refuted for t, _ in res.values()):
            pick = name
            break
    else:
        pick = 'up'
    for op, (t, sm) in res.items():
        rep.proven += t[pick].proven
        rep.open += t[pick].open
        for r in t[pick].refuted:
            rep.bad(*r)
    # events
    rv = [r for r in p.recb.get('adevs::PinValue', [])]
    if not rv:
        raise Broken('adevs::PinValue is gone')
    for r in rv:
        fs = {f['n']: p.t(f['t']) for f in r['f']}
        pin = [n for n, t in fs.items() if 'pin_t' in t]
        if len(pin) != 1 or len(fs) != 2:
            rep.und('event', 'events have other members')
            continue
        pin = pin[0]
        value = [n for n in fs if n != pin][0]
        for f in p.find('adevs::PinValue', 'PinValue') + p.find('adevs::PinValue', 'operator='):
            if f.get('cls') != r['n'] or not f['params']:
                continue
            sm = cx.summary('core', f, 'time').use(rep)
            P = ('p', f['params'][0]['n'], 0)
            one = len(f['params']) == 1
            key = 'event:' + ('assign' if f['n'] == 'operator=' else 'copy' if one else 'create')
            if not one and len(f['params']) != 2:
                continue
            for s in sm.normal():
                if one and selfassign(s, P) and not s.mem:
                    rep.ok(key + ': self assignment leaves the event alone')
                    continue
                src = {}
                if one:
                    src = {pin: ('f', P, pin), value: ('f', P, value)}
                for nm, i in ((pin, 0), (value, 1)):
                    v = s.mem.get(('f', ('this',), nm))
                    sub_ = s.mem.get(('f', ('f', ('this',), nm), idn)) if nm == pin else None
                    if one:
                        good = [('ld', src[nm]), ('ld', ('f', src[nm], idn)), ('ld', ('f', ('addr', src[nm]), idn))]
                    else:
                        q = ('p', f['params'][i]['n'], i)
                        good = [q, ('ld', q), get(q, idn), ('ld', ('f', q, idn)), ('ld', ('f', q, '*'))]
                    g = v if v is not None else sub_
                    if g is None and nm == pin:
                        g = next((w for k, w in s.mem.items() if k[0] == 'f' and k[2] == idn and contains(k, lambda y: y == ('this',))), None)
                    ok = g is not None and deld(g) in [deld(x) for x in good]
                    if ok:
                        rep.ok('%s:%s: the event carries the %s it is given' % (key, nm, nm))
                    elif g is None and nm == pin and (selfassign(s, P) or already(s, P, idn)):
                        rep.ok('%s:%s: nothing to do for equal identities' % (key, nm))
                    elif g is None:
                        wrote = any(e.k in ('wr', 'touch', 'mut', 'call') and e.obj is not None and contains(e.obj, lambda y: y == ('f', ('this',), nm)) for e in events(s.trace))
                        if f['n'] == 'operator=' and not wrote and not vague_path(s.facts) and not any(e.k == 'call' for e in s.trace):
                            rep.bad('%s:%s' % (key, nm), 'fails: the event carries the %s it is given (it is not assigned)' % nm, sm.where)
                        elif f['n'] != 'operator=' and not wrote and not any(e.k == 'call' for e in s.trace):
                            rep.bad('%s:%s' % (key, nm), 'fails: the event carries the %s it is given (it is not set)' % nm, sm.where)
                        else:
                            rep.und('%s:%s' % (key, nm), 'set in another way')
                    else:
                        rep.check(None if vague(g) else False, '%s:%s' % (key, nm), 'the event carries the %s it is given (%s)' % (nm, fmt(g)), sm.where)


def selfassign(s, P):
    same = lambda x: subst(x, lambda y: ('this',) if y == P else None)
    return any(a[0] == 'eq' and v and contains((a[1], a[2]), lambda y: y == P) and same(a[1]) == same(a[2]) for a, v in s.facts.items())


def already(s, P, idn):
    """the identities were compared and are equal"""
    for a, v in s.facts.items():
        if a[0] == 'zero' and v:
            q = to_poly(a[1])
            if len(q) == 2 and () not in q and sum(q.values()) == 0 and all(len(m) == 1 and m[0][0][0] == 'ld' and m[0][0][1][0] == 'f' and m[0][0][1][2] == idn for m in q):
                return True
    return False


def nocount(rep, s, sm, key, ID):
    extra = [e for e in events(s.trace) if e.k in ('wr', 'rmw') and e.obj != ID and not is_localish(e.obj)]
    if extra:
        rep.und(key, 'copying changes something else')
    elif s.out and s.out[0] == 'ret' and s.out[1] is not None and deld(s.out[1]) != ('this',) and s.out[1] != ('obj', ('this',)):
        rep.und(key, 'the result is not the pin itself')


def refs(n, out):
    """references to global variables in a syntax tree"""
    if isinstance(n, dict):
        if n.get('k') == 'var' and n.get('glob'):
            out.append(n)
        for v in n.values():
            refs(v, out)
    elif isinstance(n, list):
        for v in n:
            refs(v, out)


def callees(p, f, seen):
    if f['id'] in seen:
        return
    seen[f['id']] = f

    def go(n):
        if isinstance(n, dict):
            if isinstance(n.get('f'), dict) and 'id' in n['f']:
                g = p.fn.get(n['f']['id'])
                if g is not None and g.get('src'):
                    callees(p, g, seen)
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for v in n:
                go(v)
    go(f.get('body'))
    go(f.get('inits'))


def fresh(rep, p, sm, f, ID, idt):
    where = sm.where
    fs = {}
    callees(p, f, fs)
    rs = []
    locks = False
    for g in fs.values():
        refs(g.get('body'), rs)
        refs(g.get('inits'), rs)
        js = str(g.get('body')) + str(g.get('inits'))
        locks = locks or bool(re.search(r'lock_guard|unique_lock|scoped_lock|mutex|atomic_flag|compare_exchange', js))
    for s in sm.normal():
        rm = [e for e in s.trace if e.k == 'rmw']
        v = s.mem.get(ID)
        if v is None:
            rep.und('pin:fresh', 'the identity is not set directly')
            continue
        gl = set(x[1] for x in subterms(v, lambda y: y[0] == 'ld' and y[1][0] == 'g')) | set(e.obj for e in rm)
        if not gl:
            # nothing shared decides
            if isnum(v) or vague(v) is False and not contains(v, lambda y: y[0] in ('unk', 'ret', 'ld')):
                rep.bad('pin:fresh', 'fails: every new pin gets an identity of its own (%s)' % fmt(v), where)
            else:
                rep.und('pin:fresh', 'the identity comes from %s' % fmt(v))
            continue
        if len(gl) != 1:
            rep.und('pin:fresh', 'several counters')
            continue
        G = next(iter(gl))
        gv = [g for g in p.globals.values() if g['q'] == G[1]]
        gt = p.t(gv[0]['t']) if gv else ''
        if gv and gv[0].get('tls'):
            rep.bad('pin:fresh:shared', 'fails: all threads draw identities from one counter (%s is local to each thread)' % G[1], where)
            continue
        narrow = re.search(r'\b(char|short|bool)\b|int8_t|int16_t', gt)
        rep.check(not narrow, 'pin:fresh:width', 'the counter is wide enough for every pin of a program', where)
        if vague_path(s.facts) or s.facts:
            rep.und('pin:fresh', 'depends on %d conditions' % len(s.facts))
            continue
        # the counter changes by a fixed step and the identity is its value before or after it
        new = s.mem.get(G)
        old = ('ld', G, 0)
        step = sub(new, old) if new is not None else num(0)
        off = sub(v, old)
        if not isnum(step) or not isnum(off):
            rep.und('pin:fresh', 'the identity is %s' % fmt(v))
            continue
        if step == num(0):
            rep.bad('pin:fresh', 'fails: every new pin gets an identity of its own (the counter does not move)', where)
            continue
        rep.ok('pin:fresh: every new pin gets an identity of its own (the counter moves by %s)' % fmt(step))
        here = [x for x in rs if x.get('q') == G[1]]
        if locks:
            rep.und('pin:atomic', 'guarded by a lock')
        elif not gt.startswith('std::atomic<'):
            rep.bad('pin:atomic', 'fails: pins created at the same time get different identities (%s is a plain %s)' % (G[1], gt), where)
        elif len(rm) == 1 and len(here) == 1:
            rep.ok('pin:atomic: the identity is drawn by a single atomic update')
        elif any(g.get('body') is not None and 'while' in str(g.get('body')) for g in fs.values()):
            rep.und('pin:atomic', 'a loop')
        else:
            rep.bad('pin:atomic', 'fails: pins created at the same time get different identities (the counter is read and updated in %d steps)' % len(here), where)
