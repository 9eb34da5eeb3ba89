"""Terms of the abstract domain.

A term is an immutable tuple whose head is a tag.  Numbers are kept in a
polynomial normal form over the rationals, so that rearranged arithmetic has
one representation; comparisons are kept as literals (atom, sign).
"""
from fractions import Fraction
from functools import lru_cache

TRUE = ('b', True)
FALSE = ('b', False)
NULL = ('null',)
UNDEF = ('undef',)
EMPTY = ('empty',)
END = ('end',)

_intern = {}
_interned = []


def ap(kind, *payload):
    """Application of an uninterpreted function; hash-consed to keep terms small."""
    key = (kind,) + payload
    n = _intern.get(key)
    if n is None:
        n = len(_interned)
        _intern[key] = n
        _interned.append(key)
    return ('ap', kind, n)


def ap_payload(t):
    return _interned[t[2]][1:]


def num(x):
    return ('num', Fraction(x))


def isnum(t):
    return t[0] == 'num'


def key(t):
    return repr(t)


# ------------------------------------------------------------------ polynomials
def to_poly(t):
    if t[0] == 'num':
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    if t[0] == 'b':
        return {(): Fraction(1)} if t[1] else {}
    return {((t, 1),): Fraction(1)}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ('num', Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def _mulmono(a, b):
    e = {}
    for t, k in a + b:
        e[t] = e.get(t, 0) + k
    return tuple(sorted(((t, k) for t, k in e.items() if k != 0), key=repr))


def add(a, b):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def scale(a, k):
    return mk_poly({m: c * k for m, c in to_poly(a).items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    d = {}
    pa, pb = to_poly(a), to_poly(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk_poly(d)


def div(a, b):
    """Real division."""
    pb = to_poly(b)
    if not pb:
        return ('div', a, b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = tuple((t, -k) for t, k in m)
        return mul(a, mk_poly({inv: 1 / c}))
    if a == b:
        return num(1)
    # normalise the scale of the divisor
    lead = sorted(pb.items(), key=lambda x: repr(x[0]))[-1][1]
    nb = scale(b, 1 / lead)
    return mul(a, mk_poly({(((nb, -1)),): 1 / lead}))


def idiv(a, b):
    if isnum(a) and isnum(b) and b[1] != 0:
        q = abs(a[1]) // abs(b[1])
        return num(q if (a[1] >= 0) == (b[1] > 0) else -q)
    if isnum(b) and b[1] == 1:
        return a
    return ('idiv', a, b)


def is_poly_like(t):
    return t[0] in ('num', 'poly')


# ------------------------------------------------------------------ literals
def _lead(p):
    ms = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda x: repr(x[0]))
    return ms[-1][1] if ms else None


def _size_only(p):
    """C when the polynomial is k*size(C), else None"""
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'size':
            return m[0][0][1], c
    return None


def lit_emptyc(C):
    if C == EMPTY:
        return True
    if C[0] in ('push', 'ins', 'touch'):
        return False
    return (('emptyc', C), True)


def lit_pos(d, isint):
    """literal for d > 0: returns True/False or (atom, sign)"""
    p = to_poly(d)
    z = _size_only(p)
    if z is not None:
        return lnot(lit_emptyc(z[0])) if z[1] > 0 else False
    if all(m == () for m in p):
        return p.get((), 0) > 0
    lead = _lead(p)
    if isint:
        if lead < 0:
            r = lit_pos(sub(num(1), d), True)
            return (r[0], not r[1]) if not isinstance(r, bool) else (not r)
        return (('ipos', d), True)
    d = scale(d, 1 / abs(lead))
    return (('pos', d), True)


def lit_zero(d):
    p = to_poly(d)
    z = _size_only(p)
    if z is not None:
        return lit_emptyc(z[0])
    if all(m == () for m in p):
        return p.get((), 0) == 0
    lead = _lead(p)
    return (('zero', scale(d, 1 / lead)), True)


def lnot(l):
    if isinstance(l, bool):
        return not l
    return (l[0], not l[1])


# order of opaque constants (adevs_sentinel < adevs_zero < adevs_inf ...)
CONST_RANK = {('c', 'sentinel'): 0, ('c', 'zero'): 1, ('c', 'inf'): 3}


def lit_lt(a, b):
    if a == b:
        return False
    if a in CONST_RANK and b in CONST_RANK:
        return CONST_RANK[a] < CONST_RANK[b]
    if b == ('c', 'sentinel'):
        pass
    if a == ('c', 'inf'):
        return False        # nothing exceeds infinity
    return (('lt', a, b), True)


PTR_NONNULL = ('addr', 'new', 'this', 'elem', 'lambda', 'str', 'fnp', 'vdata')


def lit_eq(a, b):
    if a == b:
        return True
    if a in CONST_RANK and b in CONST_RANK:
        return False
    for x, y in ((a, b), (b, a)):
        if y == NULL and (x[0] in PTR_NONNULL):
            return False
    if a[0] == 'enum' and b[0] == 'enum':
        return False
    if a[0] == 'str' and b[0] == 'str':
        return False
    if a[0] == 'b' and b[0] == 'b':
        return False
    if a[0] == 'new' and b[0] == 'new':
        return False
    if a[0] in ('new', 'addr') and b[0] in ('new', 'addr') and a[0] != b[0]:
        return False
    x, y = sorted((a, b), key=repr)
    return (('eq', x, y), True)


# ------------------------------------------------------------------ generic rewriting
def subst(t, f):
    """Bottom-up rewriting; f(term) -> replacement or None."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is not None:
            memo[x] = r
            return r
        if x[0] == 'poly':
            acc = num(0)
            for m, c in x[1]:
                term = num(c)
                for a, k in m:
                    b = go(a)
                    if b is a or b == a:
                        term = mul(term, mk_poly({((a, k),): Fraction(1)}))
                    elif k > 0:
                        for _ in range(k):
                            term = mul(term, b)
                    else:
                        for _ in range(-k):
                            term = div(term, b)
                acc = add(acc, term)
            memo[x] = acc
            return acc
        if x[0] in ('num', 'b', 'null', 'str', 'enum'):
            return x
        if x[0] == 'ap':
            p = ap_payload(x)
            np = tuple(go(y) for y in p)
            r = x if np == p else ap(x[1], *np)
            memo[x] = r
            return r
        ys = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if ys == x:
            memo[x] = x
            return x
        r = ys
        if isinstance(ys[0], str):
            if ys[0] == 'elt':
                r = elt(ys[1], ys[2])
            elif ys[0] == 'idiv':
                r = idiv(ys[1], ys[2])
            elif ys[0] == 'get':
                r = get(ys[1], ys[2])
        memo[x] = r
        return r
    return go(t)


def contains(t, pred):
    seen = set()

    def go(x):
        if not isinstance(x, tuple) or not x:
            return False
        if x in seen:
            return False
        seen.add(x)
        if isinstance(x[0], str) and pred(x):
            return True
        if x[0] == 'ap':
            return any(go(y) for y in ap_payload(x))
        return any(go(y) for y in x if isinstance(y, tuple))
    return go(t)


def subterms(t, pred, out=None):
    out = [] if out is None else out
    seen = set()

    def go(x):
        if not isinstance(x, tuple) or not x or x in seen:
            return
        seen.add(x)
        if isinstance(x[0], str) and pred(x):
            out.append(x)
        if x[0] == 'ap':
            for y in ap_payload(x):
                go(y)
        else:
            for y in x:
                if isinstance(y, tuple):
                    go(y)
    go(t)
    return out


# ------------------------------------------------------------------ structures
def struct(fields):
    return ('struct', tuple(sorted(fields.items())))


def _addr(loc):
    if loc[0] == 'obj':
        return loc[1]
    if loc[0] == 'el' and loc[1][0] != 'addr':
        return ('padd', loc[1], loc[2]) if loc[2] != num(0) else loc[1]
    return ('addr', loc)


def get(v, f):
    if v[0] == 'struct':
        for k, x in v[1]:
            if k == f:
                return x
        return ('get', v, f)
    if v[0] == 'with':
        for k, x in v[2]:
            if k == f:
                return x
        return get(v[1], f)
    if v[0] == 'ld':
        return ('ld', ('f', _addr(v[1]), f), v[2])
    if v[0] == 'dflt':
        return ('dfltf', v[1], f)
    return ('get', v, f)


# ------------------------------------------------------------------ arrays
BIND = ('ix', '*')


def lam(start, end, body, base, L):
    """content: for index in [start,end): body(index), elsewhere base."""
    b = subst(body, lambda x: BIND if x == ('ix', L) else None)
    return ap('lam', start, end, b, base)


def inst(body, i):
    """the body of an array term at index i (the index of arrays inside it is their own)"""
    def f(x):
        if x == BIND:
            return i
        if x[0] == 'ap' and x[1] == 'lam':
            s, e, b, base = ap_payload(x)
            return ap('lam', subst(s, f), subst(e, f), b, subst(base, f))
        return None
    return subst(body, f)


def elt(A, i, rng=None):
    while True:
        if A[0] == 'st':
            if A[2] == i:
                return A[3]
            d = sub(A[2], i) if numericish(A[2]) and numericish(i) else None
            if d is not None and isnum(d) and d[1] != 0:
                A = A[1]
                continue
            return ('elt', A, i)
        if A[0] == 'ap' and A[1] == 'lam':
            s, e, body, base = ap_payload(A)
            if in_range(i, s, e, rng):
                return inst(body, i)
            return ('elt', A, i)
        if A[0] == 'fillall':
            return A[1]
        return ('elt', A, i)


def numericish(t):
    return t[0] not in ('b', 'null', 'str', 'enum', 'struct')


LOOPRANGE = {}   # L -> (start, end) of recognised unit-step index loops


AWAY = {}        # L -> step of index loops that count away from the limit they are compared with


def in_range(i, s, e, rng=None):
    if i[0] == 'ix' and i[1] in LOOPRANGE:
        s2, e2 = LOOPRANGE[i[1]]
        return s2 == s and e2 == e
    if i == BIND:
        return rng == (s, e)
    if isnum(i) and isnum(s) and isnum(e):
        return s[1] <= i[1] < e[1]
    # i = ix + c style or constants with symbolic bounds are left open
    return False


# ------------------------------------------------------------------ printing
def fmt(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth > 12:
        return '...'
    g = lambda x: fmt(x, depth + 1)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(g(x) for x in t) + ')'
    if k == 'num':
        return str(t[1])
    if k == 'poly':
        out = []
        for m, c in t[1]:
            s = '*'.join(g(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            out.append((('' if c == 1 else str(c) + '*') + s) if s else str(c))
        return '(' + ' + '.join(out) + ')'
    if k == 'b':
        return str(t[1]).lower()
    if k == 'ld':
        return g(t[1])
    if k == 'v':
        return 'local:%s' % (t[3] if len(t) > 3 else t[1])
    if k == 'f':
        b = t[1]
        return g(b[1]) + '.' + t[2] if b[0] == 'addr' else g(b) + '->' + t[2]
    if k == 'this':
        return 'this'
    if k == 'p':
        return t[1]
    if k == 'c':
        return t[1]
    if k == 'obj':
        return '*' + g(t[1])
    if k == 'addr':
        return '&' + g(t[1])
    if k == 'get':
        return g(t[1]) + '.' + t[2]
    if k == 'elem':
        return 'elem@%s' % (t[1],)
    if k == 'ix':
        return 'i@%s' % (t[1],)
    if k == 'elt':
        return g(t[1]) + '[' + g(t[2]) + ']'
    if k == 'a0':
        return g(t[1]) + '[]'
    if k in ('lt', 'eq', 'tadd', 'tsub'):
        return '(%s %s %s)' % (g(t[1]), {'lt': '<', 'eq': '==', 'tadd': '+', 'tsub': '-'}[k], g(t[2]))
    if k in ('pos', 'ipos'):
        return '(%s > 0)' % g(t[1])
    if k == 'zero':
        return '(%s == 0)' % g(t[1])
    if k == 'struct':
        return '{' + ', '.join('%s=%s' % (f, g(v)) for f, v in t[1]) + '}'
    if k == 'ap':
        p = ap_payload(t)
        if t[1] == 'lam':
            return '[%s..%s: %s]' % (g(p[0]), g(p[1]), g(p[2]))
        return '%s(%s)' % (t[1], ', '.join(g(x) for x in p))
    if k == 'enum':
        return t[1]
    if k == 'str':
        return repr(t[1])
    return k + '(' + ', '.join(g(x) for x in t[1:]) + ')'


def fmt_lit(atom, sign):
    s = fmt(atom)
    return s if sign else 'not ' + s
