"""Path-sensitive dataflow over the extracted program.

Every function is interpreted once over an abstract domain of terms.  Control
flow is followed structurally; loops are summarised by a fixpoint over what
changes on their back edges (never unrolled on data); user callbacks and the
interfaces named by a rule stay uninterpreted.  The outcome of a function is a
set of path summaries: the literals that hold on the path, the ordered effects
(calls, writes, container changes, loops with their own summaries), the final
memory and the way the path leaves.
"""
import json
import re
from fractions import Fraction
from terms import *
import terms as T


class Unsupported(Exception):
    pass


class TooComplex(Exception):
    pass


# ------------------------------------------------------------------ program
def same_ast(a, b):
    """equal syntax, whatever the lines"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(k == 'l' or same_ast(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_ast(x, y) for x, y in zip(a, b))
    return a == b


def only(s, kind):
    """the statement of that kind a body consists of"""
    while isinstance(s, dict) and s['k'] == 'block':
        c = [x for x in s['s'] if x is not None and x['k'] != 'nop']
        if len(c) != 1:
            return None
        s = c[0]
    return s if isinstance(s, dict) and s['k'] == kind else None


def jumps(s, kind, inner=('while', 'do', 'for', 'rfor', 'lambda')):
    """has a jump of that kind that belongs to the statement around s"""
    if isinstance(s, dict):
        if s.get('k') == kind:
            return True
        if s.get('k') in inner or (kind == 'break' and s.get('k') == 'switch'):
            return False
        return any(jumps(x, kind, inner) for k, x in s.items() if k != 'l')
    if isinstance(s, list):
        return any(jumps(x, kind, inner) for x in s)
    return False


def uncast(n):
    while isinstance(n, dict) and n['k'] == 'cast' and n.get('ck') in ('IntegralCast', 'NoOp') and isinstance(n.get('e'), dict):
        n = n['e']
    return n


def ast_not(c):
    if c['k'] == 'un' and c.get('op') == '!':
        return c['e']
    return {'k': 'un', 'op': '!', 'e': c, 'l': c.get('l'), 't': c.get('t')}


def desugar(n):
    """one form for loops that are left from the inside at the start or the end of a round:
    while (true) { if (c) break; B }  is  while (!c) { B };   if (c) do B while (c);  is  while (c) B"""
    if isinstance(n, list):
        for x in n:
            desugar(x)
        return
    if not isinstance(n, dict):
        return
    for k, x in n.items():
        if k != 'l' and isinstance(x, (dict, list)):
            desugar(x)
    k = n.get('k')
    c = n.get('c')
    forever = k in ('while', 'for', 'do') and not n.get('cv') and (c is None or isinstance(c, dict) and (c['k'] == 'bool' and c.get('v') is True or c['k'] == 'int' and c.get('v') not in (0, '0')))
    if forever and isinstance(n.get('s'), dict):
        b = n['s']
        body = [x for x in b['s'] if x is not None and x['k'] != 'nop'] if b['k'] == 'block' else [b]
        f = body[0] if body else None
        if f is not None and f['k'] == 'if' and not f.get('init') and not f.get('cv') and not f.get('cexpr'):
            if only(f['a'], 'break') and not f.get('b'):
                n['c'] = ast_not(f['c'])
                n['s'] = dict(b, k='block', s=body[1:])
            elif only(f['a'], 'break'):
                n['c'] = ast_not(f['c'])
                n['s'] = dict(b, k='block', s=[f['b']] + body[1:])
            elif f.get('b') and only(f['b'], 'break'):
                n['c'] = f['c']
                n['s'] = dict(b, k='block', s=[f['a']] + body[1:])
            if n.get('c') is not c and k == 'do':
                n['k'] = 'while'
        if n.get('c') is c and k != 'for' and len(body) > 1:
            f = body[-1]
            if f['k'] == 'if' and not f.get('init') and not f.get('cv') and not f.get('cexpr') and not f.get('b') and only(f['a'], 'break') and \
                    not jumps(body[:-1], 'continue') and not any(x['k'] in ('decl', 'label') for x in body[:-1]):
                n['k'] = 'do'
                n['c'] = ast_not(f['c'])
                n['s'] = dict(b, k='block', s=body[:-1])
    if n.get('k') == 'if' and not n.get('b') and not n.get('init') and not n.get('cv'):
        d = only(n['a'], 'do')
        if d is not None and same_ast(n['c'], d['c']):
            line = n.get('l')
            n.clear()
            n.update({'k': 'while', 'c': d['c'], 's': d['s'], 'l': line})


class Fns(dict):
    """functions by id; those made of lambda expressions can be looked up but are not listed"""
    def __init__(self):
        self.lam = {}

    def get(self, k, d=None):
        return dict.get(self, k) or self.lam.get(k, d)

    def __missing__(self, k):
        return self.lam[k]

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.lam


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.files = d['files']
        self.fn = Fns()
        self.byq = {}
        for f in d['functions']:
            desugar(f.get('body'))
            self.fn[f['id']] = f
            self.byq.setdefault((f.get('clsb', ''), f['n']), []).append(f)
        self.records = {r['n']: r for r in d['records']}
        self.recb = {}
        for r in d['records']:
            self.recb.setdefault(r['b'], []).append(r)
        self.enums = d.get('enums', [])
        self.globals = {g['id']: g for g in d.get('globals', [])}

    def t(self, i):
        return self.types[i] if isinstance(i, int) else (i or '')

    def where(self, l):
        if not l:
            return '?'
        return '%s:%d' % (self.files[l[0]], l[1])

    def find(self, clsb, name, cls=None, nparams=None, ptypes=None):
        out = []
        for f in self.byq.get((clsb, name), []):
            if cls and f.get('cls') != cls:
                continue
            if nparams is not None and len(f.get('params', [])) != nparams:
                continue
            if ptypes is not None and not all(
                    re.search(p, self.t(x['t'])) for p, x in zip(ptypes, f['params'])):
                continue
            out.append(f)
        return out


CONT = re.compile(r'^(const )?std::(__cxx11::)?(list|set|map|multiset|multimap|vector|deque|unordered_set|unordered_map|queue|stack|priority_queue|forward_list)<')
ITER = re.compile(r'(_List_iterator|_List_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|__normal_iterator|_Deque_iterator|_Node_iterator|_Node_const_iterator|reverse_iterator|back_insert_iterator|insert_iterator)')
SP = re.compile(r'^std::(__)?(shared_ptr|unique_ptr|shared_ptr_access)')
INTT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|unsigned|long long|size_t|bool)\b')
FLT = re.compile(r'^(const )?(double|float|long double)$')


def strip(ts):
    ts = ts.strip()
    while ts.endswith('&'):
        ts = ts[:-1].rstrip()
    if ts.startswith('const '):
        ts = ts[6:]
    if ts.endswith(' const'):
        ts = ts[:-6]
    return ts


def ckind(ts):
    m = CONT.match(strip(ts))
    return m.group(3) if m else None


def isptr(ts):
    return strip(ts).endswith('*') or strip(ts).endswith('*const')


def isint(ts):
    return bool(INTT.match(strip(ts))) and not isptr(ts)


def isflt(ts):
    return bool(FLT.match(strip(ts)))


def isbool(ts):
    return strip(ts) == 'bool'


def isscalar(ts):
    s = strip(ts)
    return isptr(s) or isint(s) or isflt(s)


# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ('k', 'name', 'cls', 'obj', 'args', 'ret', 'line', 'x', 'fn')

    def __init__(self, k, name='', cls='', obj=None, args=(), ret=None, line=None, x=None, fn=None):
        self.k, self.name, self.cls, self.obj, self.args, self.ret, self.line, self.x, self.fn = \
            k, name, cls, obj, args, ret, line, x, fn

    def key(self):
        return (self.k, self.name, self.cls, self.obj, self.args, self.ret,
                self.x if not isinstance(self.x, Loop) else id(self.x))

    def __repr__(self):
        if self.k == 'loop':
            return 'loop %s' % self.x.id
        a = ', '.join(fmt(v.val) if isinstance(v, Arg) else fmt(v) for v in self.args)
        o = fmt(self.obj) if self.obj is not None else ''
        return '%s %s%s%s(%s)%s' % (self.k, o, '.' if o else '', self.name, a,
                                    ' -> ' + fmt(self.ret) if self.ret is not None else '')


class Arg(tuple):
    """(value, location or None, array content or None)"""
    __slots__ = ()
    val = property(lambda s: s[0])
    loc = property(lambda s: s[1])
    cont = property(lambda s: s[2])


class Path:
    """One continuing or leaving path of a loop body / function."""
    def __init__(self, facts, trace, out, st):
        self.facts, self.trace, self.out, self.st = facts, trace, out, st


class Loop:
    def __init__(self, id, line):
        self.id, self.line = id, line
        self.kind = 'while'
        self.cloc = None       # location of the traversed container
        self.over = None       # its value on entry
        self.range = None      # (start, end) for index loops
        self.desc = False
        self.away = False   # the index moves away from the limit it is compared with
        self.paths = []        # continuing paths
        self.exits = []        # leaving paths (not the normal exit)
        self.regular = True
        self.why = ''
        self.updates = {}      # loc -> (init, [(path, newvalue)])
        self.partial = False   # this node stands for the iterations before an early exit
        self.elem = ('elem', id)

    def copy(self, partial):
        n = Loop(self.id, self.line)
        n.__dict__.update(self.__dict__)
        n.partial = partial
        return n


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ('fn', 'this', 'depth', 'caps')

    def __init__(self, fn, this, depth, caps=None):
        self.fn, self.this, self.depth, self.caps = fn, this, depth, caps or {}


class State:
    __slots__ = ('mem', 'facts', 'trace', 'frames', 'out', 'ep', 'n', 'imp', 'lc')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = ()
        self.frames = ()
        self.out = None
        self.ep = {}
        self.n = 0
        self.imp = ()
        self.lc = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.frames = self.frames
        s.out = self.out
        s.ep = dict(self.ep)
        s.n = self.n
        s.imp = self.imp
        s.lc = self.lc
        return s

    @property
    def fr(self):
        return self.frames[-1]

    def ev(self, e):
        self.trace = self.trace + (e,)


# ------------------------------------------------------------------ facts
def _split(d):
    p = to_poly(d)
    c = p.pop((), Fraction(0))
    if not p:
        return None, 0, c, 1
    lead = T._lead(p)
    k = abs(lead)
    s = 1 if lead > 0 else -1
    L0 = mk_poly({m: v / lead for m, v in p.items()})
    return L0, s, c, k


def _bounds(facts, L0):
    lo = hi = None       # (value, strict)
    neq = []

    def low(v, strict):
        nonlocal lo
        if lo is None or v > lo[0] or (v == lo[0] and strict):
            lo = (v, strict)

    def up(v, strict):
        nonlocal hi
        if hi is None or v < hi[0] or (v == hi[0] and strict):
            hi = (v, strict)
    for a, sg in facts.items():
        k = a[0]
        if k not in ('pos', 'ipos', 'zero'):
            continue
        M, s, c, sc = _split(a[1])
        if M != L0:
            continue
        if k == 'zero':
            v = -c / (s * sc)
            if sg:
                low(v, False)
                up(v, False)
            else:
                neq.append(v)
        else:
            integral = (k == 'ipos' and sc == 1)
            # s*sc*L0 + c > 0
            v = -c / sc if s > 0 else c / sc
            if (s > 0) == sg:
                if sg:
                    low(v + 1, False) if integral else low(v, True)
                else:
                    low(v, False)
            else:
                if sg:
                    up(v - 1, False) if integral else up(v, True)
                else:
                    up(v, False)
    return lo, hi, neq


def _order(facts, extra=()):
    """strict and weak reachability among ordered terms"""
    nodes = set(CONST_RANK)
    le = set()
    lt = set()
    for a, sg in facts.items():
        if a[0] == 'lt':
            nodes.add(a[1]); nodes.add(a[2])
            if sg:
                lt.add((a[1], a[2])); le.add((a[1], a[2]))
            else:
                le.add((a[2], a[1]))
        elif a[0] == 'eq' and sg:
            nodes.add(a[1]); nodes.add(a[2])
            le.add((a[1], a[2])); le.add((a[2], a[1]))
    nodes |= set(extra)
    for x in CONST_RANK:
        for y in CONST_RANK:
            if CONST_RANK[x] < CONST_RANK[y]:
                lt.add((x, y)); le.add((x, y))
    inf = ('c', 'inf')
    for x in nodes:
        le.add((x, inf))
    for a, sg in facts.items():
        if a[0] == 'eq' and not sg:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if (x, y) in le:
                    lt.add((x, y))
    changed = True
    while changed:
        changed = False
        for (a, b) in list(le):
            for (c, d) in list(le):
                if b == c and a != d:
                    if (a, d) not in le:
                        le.add((a, d)); changed = True
                    if ((a, b) in lt or (c, d) in lt) and (a, d) not in lt:
                        lt.add((a, d)); changed = True
        for a, sg in facts.items():
            if a[0] == 'eq' and not sg:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if (x, y) in le and (x, y) not in lt:
                        lt.add((x, y)); changed = True
    return le, lt


def decide_atom(facts, a):
    v = facts.get(a)
    if v is not None:
        return v
    k = a[0]
    if k in ('pos', 'ipos', 'zero'):
        L0, s, c, sc = _split(a[1])
        lo, hi, neq = _bounds(facts, L0)
        # value of s*sc*L0 + c
        if k == 'zero':
            v = -c / (s * sc)
            if lo and hi and lo[0] == hi[0] == v:
                return True
            if v in neq or (lo and (v < lo[0] or (v == lo[0] and lo[1]))) or \
                    (hi and (v > hi[0] or (v == hi[0] and hi[1]))):
                return False
            return None
        b = -c / sc if s > 0 else c / sc
        if s > 0:       # L0 > b
            if lo and (lo[0] > b or (lo[0] == b and (lo[1] or b in neq))):
                return True
            if hi and hi[0] <= b:
                return False
        else:           # L0 < b
            if hi and (hi[0] < b or (hi[0] == b and (hi[1] or b in neq))):
                return True
            if lo and lo[0] >= b:
                return False
        return None
    if k in ('lt', 'eq'):
        x, y = a[1], a[2]
        if k == 'eq':
            for f, sg in facts.items():
                if f[0] == 'eq' and sg:
                    for p, q in ((f[1], f[2]), (f[2], f[1])):
                        for u, w in ((x, y), (y, x)):
                            if p == u and q != w:
                                l = lit_eq(q, w)
                                if isinstance(l, bool):
                                    return l
                                if l[0] in facts:
                                    return facts[l[0]] == l[1]
        if not any(f[0] in ('lt', 'eq') for f in facts) and x not in CONST_RANK and y not in CONST_RANK:
            return None
        le, lt = _order(facts, (x, y))
        if k == 'lt':
            if (x, y) in lt:
                return True
            if (y, x) in le:
                return False
            if (x, y) in le and facts.get(T.lit_eq(x, y)[0] if not isinstance(T.lit_eq(x, y), bool) else None) is False:
                return True
        else:
            if (x, y) in le and (y, x) in le:
                return True
            if (x, y) in lt or (y, x) in lt:
                return False
        return None
    if k == 'emptyc':
        for f, sg in facts.items():
            if f[0] == 'has' and f[1] == a[1] and sg:
                return False
        return None
    if k == 'has':
        if facts.get(('emptyc', a[1])) is True:
            return False
        for f, sg in facts.items():
            if f[0] == 'has' and f[1] == a[1]:
                l = lit_eq(f[2], a[2])
                if l is True or (not isinstance(l, bool) and facts.get(l[0]) == l[1]):
                    return sg
        return None
    return None


def decide(facts, l):
    if isinstance(l, bool):
        return l
    v = decide_atom(facts, l[0])
    return None if v is None else (v == l[1])


# ------------------------------------------------------------------ locations
def parent(loc):
    k = loc[0]
    if k == 'f' and loc[1][0] == 'addr':
        return loc[1][1]
    if k in ('ce', 'mv'):
        return loc[1]
    if k == 'el' and loc[1][0] == 'addr':
        return loc[1][1]
    if k == 'arr' and loc[1][0] == 'addr':
        return loc[1][1]
    if k == 'arr' and loc[1][0] == 'vdata':
        return loc[1][1]
    return None


def root(loc):
    while True:
        p = parent(loc)
        if p is None:
            return loc
        loc = p


def steps(loc):
    out = []
    while True:
        p = parent(loc)
        k = loc[0]
        if p is None:
            if k == 'f':
                out.append(('f', loc[2]))
                return loc[1], out[::-1]
            if k == 'el':
                out.append(('el', loc[2]))
                return loc[1], out[::-1]
            if k == 'arr':
                out.append(('arr',))
                return loc[1], out[::-1]
            if k == 'obj':
                return loc[1], out[::-1]
            return loc, out[::-1]
        if k == 'f':
            out.append(('f', loc[2]))
        elif k == 'el':
            out.append(('el', loc[2]))
        elif k == 'arr':
            out.append(('arr',))
        else:
            out.append((k, loc[2]))
        loc = p


def islocal(loc):
    return root(loc)[0] in ('v', 't', 'ref')


def is_sub(k, loc):
    while k is not None:
        if k == loc:
            return True
        k = parent(k)
    return False


def fieldkey(loc):
    r, s = steps(loc)
    return '/'.join(x[1] if x[0] == 'f' else x[0] for x in s) or 'obj'


def norm_obj(ptr):
    """*ptr as a location"""
    if ptr[0] == 'addr':
        return ptr[1]
    if ptr[0] == 'padd':
        return ('el', ptr[1], ptr[2])
    return ('obj', ptr)


def addr_of(loc):
    if loc[0] == 'obj':
        return loc[1]
    if loc[0] == 'el' and loc[1][0] != 'addr':
        return ('padd', loc[1], loc[2]) if loc[2] != num(0) else loc[1]
    return ('addr', loc)


def field(ptr, name):
    return ('f', ptr, name)


def isiter(v):
    return v[0] == 'it'


CVAL = ('empty', 'push', 'ins', 'app', 'erase', 'pop', 'cphi', 'coll', 'filled', 'cinit', 'popb', 'rm', 'eraseat', 'copyof', 'range', 'touch')


# ------------------------------------------------------------------ engine
class Config:
    """What a rule keeps uninterpreted, and which calls it models itself."""
    def __init__(self, opaque=(), models=None, pure=(), opaque_cls=(), time_cls=(), inline_virtual=(), noinline=(), keepargs=(), bumps=None, opaque_rec=True):
        self.deref = None                     # called with (engine, state, pointer, node) wherever a pointer is followed
        self.opaque_rec = opaque_rec          # recursive functions are summarised by what they modify
        self.bumps = bumps or {}              # (clsb, name) -> pseudo field changed by the call
        self.keepargs = set(keepargs)         # calls assumed not to change their reference arguments
        self.opaque = set(opaque)             # (clsb, name)
        self.opaque_cls = set(opaque_cls)     # clsb
        self.models = models or {}            # (clsb, name) -> handler(eng, st, n, obj, args) -> [(st, val)]
        self.pure = set(pure)                 # names of pure callbacks
        self.time_cls = set(time_cls)         # class bases treated as opaque ordered scalars
        self.inline_virtual = set(inline_virtual)
        self.noinline = set(noinline)         # function names


def elem_eq(a, L):
    """the value an element of loop L is compared with by this atom"""
    if a[0] != 'eq' or len(a) != 3:
        return None
    e = ('elem', L)
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if x == e and not contains(y, lambda t: L in t[1:]):
            return y
    return None


class Engine:
    MAXSTATES = 4000

    def __init__(self, prog, cfg):
        self.p = prog
        self.cfg = cfg
        self.uid = {}
        self.loops = {}
        self.analysed = set()
        self.calls_seen = 0
        self.trydepth = 0
        self.steps = 0
        self.lambdas = {}
        self.ctypes = {}
        self.entry = None
        self.recset = recursive_functions(prog) if cfg.opaque_rec else {}
        self.modsets = {}
        self.inprog = set()

    # ------------------------------------------------ entry points
    def run(self, fn, this=('this',), args=None, pre=None):
        """All paths of a function from an arbitrary state."""
        self.entry = fn['id']
        st = State()
        fr = Frame(fn['id'], this, 0)
        st.frames = (fr,)
        for i, p in enumerate(fn.get('params', [])):
            ts = self.p.t(p['t'])
            loc = ('v', p['id'], 0, p['n'])
            nm = p['n'] or 'arg%d' % i
            v = args[i] if args and i < len(args) and args[i] is not None else ('p', nm, i)
            if p.get('ref'):
                st.mem[('ref', p['id'], 0)] = ('obj', v) if not (isinstance(v, tuple) and v[0] == 'LOC') else v[1]
            else:
                st.mem[loc] = v
        if pre:
            pre(self, st)
        self.analysed.add(fn['id'])
        res = []
        for s in self.exec_fn(fn, st):
            res.append(s)
        return res

    def exec_fn(self, fn, st):
        """Runs constructor initialisers and the body in the current frame."""
        states = [st]
        for i in fn.get('inits', []) or []:
            nxt = []
            for s in states:
                if s.out:
                    nxt.append(s)
                    continue
                nxt += self.ctor_init(i, s)
            states = nxt
        out = []
        for s in states:
            if s.out:
                out.append(s)
            elif fn.get('body') is None:
                out.append(s)
            else:
                out += self.ex(fn['body'], s)
        return self.merge(out)

    def ctor_init(self, i, st):
        if i.get('e') is None:
            return [st]
        if 'f' in i:
            loc = field(st.fr.this, i['f'])
            return self.init_loc(st, loc, i['e'], self.p.t(i.get('t')))
        # base or delegating constructor
        e = i['e']
        if e['k'] == 'ctor':
            return [s for s, _ in self.construct(e, st, st.fr.this)]
        return [s for s, _ in self.ev(e, st)]

    # ------------------------------------------------ memory
    def epoch(self, st, loc):
        return st.ep.get(fieldkey(loc), 0)

    def read(self, st, loc, ts=''):
        m = st.mem
        subs = [k for k in m if k[0] in ('f', 'el') and k != loc and is_sub(k, loc)] if not isscalar(ts or 'x') else []
        v = m.get(loc)
        if v is None:
            p = parent(loc)
            chain = []
            l = loc
            while p is not None:
                chain.append(l)
                if p in m:
                    v = m[p]
                    ok = True
                    for c in reversed(chain):
                        if c[0] == 'f':
                            v = get(v, c[2])
                        else:
                            ok = False
                            break
                    if not ok:
                        v = None
                    break
                l, p = p, parent(p)
        if v is None:
            v = self.initial(st, loc)
        if subs:
            fs = {}
            for k in subs:
                q = k
                while q is not None and parent(q) != loc:
                    q = parent(q)
                if q is not None and q[0] == 'f' and q[2] not in fs:
                    fs[q[2]] = self.read(st, q, self.ftype(ts, q[2]))
            if fs:
                if v[0] == 'struct':
                    d = dict(v[1]); d.update(fs)
                    return struct(d)
                full = self.full_fields(ts)
                if full and all(f in fs for f in full):
                    return eta(fs)
                if v[0] == 'with':
                    d = dict(v[2]); d.update(fs); fs = d; v = v[1]
                return ('with', v, tuple(sorted(fs.items())))
        return v

    def ftype(self, ts, f):
        """declared type of field f of a class type, '' if unknown"""
        s = strip(ts)
        m = re.match(r'^std::pair<(.*)>$', s)
        if m and f in ('first', 'second'):
            a = split_targs(m.group(1))
            return a[0 if f == 'first' else 1] if len(a) == 2 else ''
        r = self.p.records.get(s)
        if r:
            for x in r['f']:
                if x['n'] == f:
                    return self.p.t(x['t'])
        return ''

    def full_fields(self, ts):
        s = strip(ts)
        if s.startswith('std::pair<'):
            return ['first', 'second']
        r = self.p.records.get(s)
        if r:
            return [f['n'] for f in r['f']] or None
        return None

    def initial(self, st, loc):
        k = loc[0]
        if k in ('v', 't'):
            return UNDEF
        if k == 'f' and loc[1][0] == 'addr':
            pl = loc[1][1]
            if pl[0] == 'ce':
                e = self.elem_of(st, pl)
                if e is not None:
                    return get(e, loc[2])
            if pl[0] == 'f' and pl not in st.mem:
                e = self.initial(st, pl)
                if e[0] == 'get':
                    return get(e, loc[2])
            if root(pl)[0] in ('v', 't'):
                return UNDEF
        if k == 'obj' and loc[1][0] == 'lambda':
            return loc[1]
        if k == 'ce':
            e = self.elem_of(st, loc)
            if e is not None:
                return e
        if k == 'arr':
            return ('a0', loc[1], self.epoch(st, loc))
        if k == 'el':
            return ('ld', loc, self.epoch(st, loc))
        return ('ld', loc, self.epoch(st, loc))

    def elem_of(self, st, ce):
        pos = ce[2]
        if pos[0] == 'cur':
            if ce[1] in st.mem and ckind(self.ctypes.get(ce[1], '')) in ('map', 'unordered_map'):
                return None
            return ('elem', pos[1])
        if pos[0] == 'key':
            return pos[1]
        if pos[0] in ('front', 'begin'):
            c = self.read(st, ce[1])
            return self.front_of(c)
        if pos[0] == 'back':
            c = self.read(st, ce[1])
            if c[0] == 'push' and c[3] == 'b':
                return c[2]
            return ('back', c)
        return None

    def front_of(self, c):
        if c[0] == 'cphi':
            return ('elem', c[1])
        if c[0] == 'push':
            if c[3] == 'f':
                return c[2]
            if c[1] == EMPTY:
                return c[2]
            f = self.front_of(c[1])
            return f
        if c[0] == 'ins' and c[1] == EMPTY:
            return c[2]
        return ('front', c)

    def distinct(self, st, a, b):
        if a == b:
            return False
        l = lit_eq(a, b)
        d = decide(st.facts, l) if a[0] != 'num' and b[0] != 'num' else None
        if d is False:
            return True
        if a[0] in ('new',) or b[0] in ('new',):
            # a fresh object differs from anything that existed before
            o = b if a[0] == 'new' else a
            if o[0] in ('p', 'ld', 'this', 'get', 'elem', 'new'):
                return True
        if T.is_poly_like(a) or T.is_poly_like(b):
            d = decide(st.facts, lit_zero(sub(a, b)))
            return d is False
        return False

    def may_alias(self, st, l1, l2):
        r1, s1 = steps(l1)
        r2, s2 = steps(l2)
        if len(s1) != len(s2):
            return False
        if islocal(l1) or islocal(l2):
            if r1 != r2:
                return False
        for x, y in zip(s1, s2):
            if x[0] != y[0]:
                return False
            if x[0] == 'f' and x[1] != y[1]:
                return False
            if x[0] in ('mv', 'el') and x[1] != y[1] and self.distinct(st, x[1], y[1]):
                return False
            if x[0] == 'ce' and x[1] != y[1] and not self.pos_may(st, x[1], y[1]):
                return False
        if r1 != r2:
            if s1 and s1[0][0] == 'arr':
                return False        # assumption: distinct array pointers do not overlap
            if r1[0] == 'this' or r2[0] == 'this':
                if not (r1[0] == 'p' or r2[0] == 'p' or r1[0] == 'elem' or r2[0] == 'elem'):
                    return False
            if self.distinct(st, r1, r2):
                return False
        return True

    def pos_may(self, st, a, b):
        if a[0] == 'cur' and b[0] == 'next' and b[1] == a:
            return False
        if b[0] == 'cur' and a[0] == 'next' and a[1] == b:
            return False
        return True

    def write(self, st, loc, v, line=None, ev=True, quiet=False):
        m = st.mem
        for k in [k for k in m if k != loc and k[0] != 'ref']:
            if is_sub(k, loc):
                del m[k]
        if not islocal(loc):
            al = [k for k in m if k != loc and k[0] not in ('ref', 'v', 't') and not islocal(k) and self.may_alias(st, k, loc)]
            fk = fieldkey(loc)
            if al:
                st.n += 1
                for k in al:
                    m[k] = ('ld', k, ('w', st.n)) if k[0] != 'arr' else ('a0', k[1], ('w', st.n))
            st.ep[fk] = ('w', st.n, self.epoch(st, loc)) if False else st.ep.get(fk, 0)
            st.ep[fk] = self.bump(st.ep[fk])
        m[loc] = v
        if ev and not islocal(loc):
            st.ev(Ev('wr', obj=loc, args=(v,), line=line, fn=st.fr.fn))

    def bump(self, e):
        if isinstance(e, int):
            return e + 1
        if isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], int):
            return (e[0], e[1] + 1)
        return (e, 1)

    # arrays
    def arrloc(self, ptr):
        if ptr[0] == 'padd':
            return ('arr', ptr[1]), ptr[2]
        return ('arr', ptr), num(0)

    def content(self, st, ptr):
        loc, off = self.arrloc(ptr)
        v = st.mem.get(loc)
        if v is None:
            v = self.initial(st, loc)
        if off != num(0):
            return ('shift', v, off)
        return v

    # ------------------------------------------------ branching
    def branch(self, st, lit):
        d = decide(st.facts, lit)
        if d is not None:
            return [(st, d)]
        a, s = lit
        t = st
        e = st.copy()
        t.facts[a] = s
        e.facts[a] = not s
        return [(t, True), (e, False)]

    def truth(self, v, ts):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'num':
            return v[1] != 0
        if v == NULL:
            return False
        if v[0] == 'lit':
            return (v[1], v[2])
        s = strip(ts)
        if isptr(s) or SP.match(s):
            return lnot(lit_eq(v, NULL))
        if isbool(s):
            if v[0] == 'poly':
                return lnot(lit_zero(v))
            return (('t', v), True)
        if isint(s) or isflt(s):
            return lnot(lit_zero(v))
        if v[0] in PTR_NONNULL:
            return True
        return (('t', v), True)

    def cond(self, n, st):
        """[(state, bool)]"""
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(n['a'], st):
                if s.out:
                    out.append((s, False))
                elif b == (n['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(n['b'], s)
            return out
        if k == 'un' and n['op'] == '!':
            return [(s, (not b) if not s.out else b) for s, b in self.cond(n['e'], st)]
        if k == 'bin' and n['op'] in ('==', '!='):
            for x, y in ((n['a'], n['b']), (n['b'], n['a'])):
                x, y = uncast(x), uncast(y)
                if x['k'] == 'bool' and self.p.t(y.get('t')).replace('const ', '') in ('bool', '_Bool'):
                    same = (n['op'] == '==') == bool(x['v'])
                    return [(s, b if same or s.out else not b) for s, b in self.cond(y, st)]
        if k == 'cast' and n['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'UserDefinedConversion'):
            e = n['e']
            out = []
            for s, v in self.ev(e, st):
                if s.out:
                    out.append((s, False))
                else:
                    out += self.branch_v(s, v, self.p.t(e['t']))
            return out
        out = []
        for s, v in self.ev(n, st):
            if s.out:
                out.append((s, False))
            else:
                out += self.branch_v(s, v, self.p.t(n['t']))
        return out

    def branch_v(self, s, v, ts):
        l = self.truth(v, ts)
        return self.branch(s, l)

    def boolval(self, n, st):
        return [(s, (TRUE if b else FALSE) if not s.out else UNDEF) for s, b in self.cond(n, st)]

    # ------------------------------------------------ expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 3000000:
            raise TooComplex('step limit')
        k = n['k']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            return self.unknown(n, st, 'expression ' + k)
        if n.get('lv') and k in ('var', 'mem', 'idx', 'un', 'mat', 'asg', 'casg', 'cond', 'call', 'cast'):
            out = []
            for s, loc in self.lval(n, st):
                if s.out:
                    out.append((s, UNDEF))
                else:
                    out.append((s, self.load(s, loc, self.p.t(n['t']))))
            return out
        r = f(n, st)
        if len(r) > self.MAXSTATES:
            raise TooComplex('too many states at line %s' % (n.get('l'),))
        return r

    def unknown(self, n, st, why):
        st.imp = st.imp + ('%s at %s' % (why, self.p.where(n.get('l'))),)
        st.n += 1
        return [(st, ('unk', why, st.n))]

    def evs(self, nodes, st):
        """evaluates several expressions left to right: [(state, [values])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if s.out:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def load(self, st, loc, ts):
        if loc[0] == 'el' and isscalar(ts):
            aloc, off = ('arr', loc[1]), loc[2]
            c = st.mem.get(aloc)
            if c is None:
                c = self.initial(st, aloc)
            return elt(c, off)
        if loc[0] == 'ARR':   # array lvalue
            return ('addr', loc[1])
        v = self.read(st, loc, ts)
        # follow equalities to constants for integers/enums is left to facts
        return v

    def store(self, st, loc, v, ts, line=None):
        if loc[0] == 'el' and isscalar(ts):
            aloc = ('arr', loc[1])
            c = st.mem.get(aloc)
            if c is None:
                c = self.initial(st, aloc)
            nv = ('st', c, loc[2], v)
            if c[0] == 'st' and c[2] == loc[2]:
                nv = ('st', c[1], loc[2], v)
            st.mem[aloc] = nv
            if not islocal(aloc):
                st.ev(Ev('wr', obj=loc, args=(v,), line=line, fn=st.fr.fn))
            return
        self.write(st, loc, v, line)

    def e_int(self, n, st):
        return [(st, num(int(n['v'])))]

    def e_flt(self, n, st):
        src = (n.get('src') or '').rstrip('fFlL')
        try:
            v = Fraction(src)
        except Exception:
            try:
                v = Fraction(n['v'])
            except Exception:
                return [(st, ('c', 'flt:' + n['v']))]
        return [(st, ('num', v))]

    def e_bool(self, n, st):
        return [(st, TRUE if n['v'] else FALSE)]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_str(self, n, st):
        return [(st, ('str', n['v']))]

    def e_this(self, n, st):
        return [(st, st.fr.this)]

    def e_enum(self, n, st):
        return [(st, ('enum', n['n'], n.get('v')))]

    def e_fn(self, n, st):
        return [(st, ('fnp', n['f'].get('id'), n['f'].get('n')))]

    def e_sizeof(self, n, st):
        if 'v' in n:
            ts = strip(self.p.t(n.get('at')))
            if isflt(ts) or isptr(ts) or isbool(ts) or isint(ts):
                return [(st, ('c', 'sizeof(%s)' % ts))] if not isbool(ts) else [(st, num(1))]
            return [(st, ('c', 'sizeof(%s)' % ts))]
        return [(st, ('c', 'sizeof'))]

    def e_zero(self, n, st):
        ts = strip(self.p.t(n['t']))
        if isptr(ts):
            return [(st, NULL)]
        if isbool(ts):
            return [(st, FALSE)]
        if isint(ts) or isflt(ts):
            return [(st, num(0))]
        return [(st, ('dflt', ts))]

    def e_other(self, n, st):
        if n.get('cn') == 'ArrayInitLoopExpr':
            # memberwise copy of an array: first child is the source array
            ch = n.get('ch') or []
            if ch:
                return self.ev(ch[0], st)
            return [(st, ('arrcopy',))]
        if n.get('cn') == 'ImplicitValueInitExpr':
            return self.e_zero(n, st)
        if n.get('cn') == 'CXXInheritedCtorInitExpr':
            return [(st, UNDEF)]
        return self.unknown(n, st, 'expression ' + n.get('cn', '?'))

    def e_pseudo(self, n, st):
        return [(st, UNDEF)]

    def e_load(self, n, st):
        return self.ev(n['e'], st)

    def e_var(self, n, st):
        raise Unsupported('var as rvalue')

    e_mem = e_idx = e_var

    def e_mat(self, n, st):
        return self.ev(n['e'], st)

    def e_init(self, n, st):
        ts = strip(self.p.t(n['t']))
        out = []
        for s, vs in self.evs(n['e'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            ff = self.full_fields(ts)
            if ff and len(ff) == len(vs):
                out.append((s, struct(dict(zip(ff, vs)))))
            elif re.search(r'\[\d*\]$', ts):
                m = re.search(r'\[(\d+)\]$', ts)
                d = {'[%d]' % i: v for i, v in enumerate(vs)}
                if m and n.get('fill') is not None:
                    z = self.ev(n['fill'], s)
                    zv = z[0][1]
                    for i in range(len(vs), min(int(m.group(1)), 64)):
                        d['[%d]' % i] = zv
                out.append((s, struct(d)))
            elif len(vs) == 1 and (isscalar(ts)):
                out.append((s, vs[0]))
            elif not vs:
                for s2, v in self.e_zero(n, s):
                    out.append((s2, v))
            else:
                out.append((s, ('init', ts) + tuple(vs)))
        return out

    def e_cast(self, n, st):
        ck = n['ck']
        ts = strip(self.p.t(n['t']))
        e = n['e']
        if ck == 'ToVoid':
            return [(s, UNDEF) for s, _ in self.ev(e, st)]
        if ck == 'ArrayToPointerDecay':
            if e['k'] == 'str':
                return self.ev(e, st)
            return [(s, addr_of(l) if not s.out else UNDEF) for s, l in self.lval(e, st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.boolval(n, st)
        if n.get('dyn'):
            return self.dyncast(n, st, ts)
        out = []
        for s, v in self.ev(e, st):
            if s.out:
                out.append((s, UNDEF))
                continue
            if ck == 'FloatingToIntegral':
                if v[0] == 'num':
                    q = abs(v[1]).numerator // abs(v[1]).denominator
                    v = num(q if v[1] >= 0 else -q)
                else:
                    v = ('trunc', v)
            elif ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral') and v[0] == 'b':
                v = num(1 if v[1] else 0) if not isbool(ts) else v
            elif ck == 'IntegralCast' and isbool(ts):
                pass
            out.append((s, v))
        return out

    def dyncast(self, n, st, ts):
        out = []
        for s, v in self.ev(n['e'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            tgt = re.sub(r'<.*', '', ts.replace('*', '').replace('const ', '')).strip()
            out += self.isa(s, v, tgt)
        return out

    def isa(self, s, v, tgt):
        if v == NULL:
            return [(s, NULL)]
        res = []
        nl = lit_eq(v, NULL)
        if not isinstance(nl, bool) and decide(s.facts, nl) is True:
            return [(s, NULL)]
        for s2, b in self.branch(s, (('isa', v, tgt), True)):
            if b and not isinstance(nl, bool):
                s2.facts[nl[0]] = not nl[1]
            res.append((s2, v if b else NULL))
        return res

    def e_cond(self, n, st):
        out = []
        for s, b in self.cond(n['c'], st):
            if s.out:
                out.append((s, UNDEF))
            else:
                out += self.ev(n['a'] if b else n['b'], s)
        return out

    def e_lambda(self, n, st):
        caps = []
        for c in n['caps']:
            if c.get('this'):
                caps.append(('this', st.fr.this))
            elif c.get('ref'):
                loc = self.varloc(st, c['id'], c.get('n', ''))
                caps.append(('ref', c['id'], loc))
            else:
                res = self.ev(c['init'], st)
                if len(res) != 1:
                    caps.append(('val', c['id'], ('unk', 'cap')))
                else:
                    caps.append(('val', c['id'], res[0][1]))
        nid = n['f'].get('id', id(n))
        self.lambdas[nid] = n
        return [(st, ('lambda', nid, tuple(caps)))]

    def e_throw(self, n, st):
        if n.get('e') is None:
            st.out = ('throw', ('rethrow',))
            st.ev(Ev('throw', args=(('rethrow',),), line=n.get('l'), fn=st.fr.fn))
            return [(st, UNDEF)]
        out = []
        for s, v in self.ev(n['e'], st):
            if not s.out:
                s.ev(Ev('throw', args=(v,), line=n.get('l'), fn=s.fr.fn))
                s.out = ('throw', v)
            out.append((s, UNDEF))
        return out

    def e_new(self, n, st):
        ts = self.p.t(n['at'])
        out = []
        sizes = self.evs([n['n']], st) if n.get('n') else [(st, [])]
        for s, vs in sizes:
            if s.out:
                out.append((s, UNDEF))
                continue
            s.n += 1
            ptr = ('new', '%s' % (n.get('l', [0, 0])[1],), s.n)
            s.ev(Ev('new', name=ts, args=tuple(vs), ret=ptr, line=n.get('l'), x=bool(n.get('arr')), fn=s.fr.fn))
            if n.get('arr'):
                if n.get('init') is not None and isscalar(ts):
                    z = self.ev(n['init'], s)
                    s = z[0][0]
                    s.mem[('arr', ptr)] = ('fillall', num(0))
                out.append((s, ptr))
                continue
            i = n.get('init')
            if i is not None and i['k'] == 'ctor':
                for s2, _ in self.construct(i, s, ptr):
                    out.append((s2, ptr))
            elif i is not None:
                for s2, v in self.ev(i, s):
                    if not s2.out:
                        s2.mem[('obj', ptr)] = v
                    out.append((s2, ptr))
            else:
                out.append((s, ptr))
        return out

    def e_delete(self, n, st):
        out = []
        for s, v in self.ev(n['e'], st):
            if not s.out:
                s.ev(Ev('delete', name=self.p.t(n.get('dt')), args=(v,), x=bool(n.get('arr')), line=n.get('l'), fn=s.fr.fn))
                if getattr(self.cfg, 'poison', False):
                    s.mem[self.arrloc(v)[0]] = ap('freed', v)
            out.append((s, UNDEF))
        return out

    # arithmetic
    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            return self.boolval(n, st)
        if op == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out += self.ev(n['b'], s) if not s.out else [(s, UNDEF)]
            return out
        out = []
        ta, tb = self.p.t(n['a']['t']), self.p.t(n['b']['t'])
        for s, vs in self.evs([n['a'], n['b']], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            out += self.binop(s, op, vs[0], vs[1], ta, tb, self.p.t(n['t']))
        return out

    def cmp_lit(self, op, a, b, ta, tb):
        numeric = (isint(ta) or isflt(ta)) and (isint(tb) or isflt(tb))
        if numeric and a[0] in ('enum',) or b[0] in ('enum',):
            numeric = False
        if numeric and not (isbool(ta) and isbool(tb)):
            if a[0] == 'b':
                a = num(1 if a[1] else 0)
            if b[0] == 'b':
                b = num(1 if b[1] else 0)
            ii = isint(ta) and isint(tb)
            if op == '<':
                return lit_pos(sub(b, a), ii)
            if op == '>':
                return lit_pos(sub(a, b), ii)
            if op == '<=':
                return lnot(lit_pos(sub(a, b), ii))
            if op == '>=':
                return lnot(lit_pos(sub(b, a), ii))
            l = lit_zero(sub(a, b))
            return l if op == '==' else lnot(l)
        if op in ('==', '!='):
            if isbool(ta) and isbool(tb) and (a[0] == 'b' or b[0] == 'b'):
                x, c = (a, b) if b[0] == 'b' else (b, a)
                l = self.truth(x, 'bool')
                if not c[1]:
                    l = lnot(l)
                return l if op == '==' else lnot(l)
            l = lit_eq(a, b)
            return l if op == '==' else lnot(l)
        if op == '<':
            return lit_lt(a, b)
        if op == '>':
            return lit_lt(b, a)
        if op == '<=':
            return lnot(lit_lt(b, a))
        return lnot(lit_lt(a, b))

    def binop(self, s, op, a, b, ta, tb, tr):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isiter(a) and isiter(b):
                l = self.iter_eq(s, a, b)
                if op == '!=':
                    l = lnot(l)
                elif op != '==':
                    l = (('t', ('itcmp', op, a, b)), True)
            else:
                l = self.cmp_lit(op, a, b, ta, tb)
            return [(x, TRUE if r else FALSE) for x, r in self.branch(s, l)]
        if isptr(ta) and op in ('+', '-') and not isptr(tb):
            off = b if op == '+' else neg(b)
            if a[0] == 'padd':
                off2 = add(a[2], off)
                return [(s, ('padd', a[1], off2) if off2 != num(0) else a[1])]
            return [(s, ('padd', a, off) if off != num(0) else a)]
        if isptr(tb) and op == '+':
            return self.binop(s, op, b, a, tb, ta, tr)
        if isptr(ta) and isptr(tb) and op == '-':
            pa = (a[1], a[2]) if a[0] == 'padd' else (a, num(0))
            pb = (b[1], b[2]) if b[0] == 'padd' else (b, num(0))
            if pa[0] == pb[0]:
                return [(s, sub(pa[1], pb[1]))]
        if a[0] == 'b':
            a = num(1 if a[1] else 0)
        if b[0] == 'b':
            b = num(1 if b[1] else 0)
        if op == '+':
            return [(s, add(a, b))]
        if op == '-':
            return [(s, sub(a, b))]
        if op == '*':
            return [(s, mul(a, b))]
        if op == '/':
            if isint(ta) and isint(tb):
                return [(s, idiv(a, b))]
            return [(s, div(a, b))]
        if op == '%' and isnum(a) and isnum(b) and b[1] != 0:
            return [(s, num(int(a[1]) - int(b[1]) * int(idiv(a, b)[1])))]
        if op == '>>' and isnum(b):
            return [(s, idiv(a, num(2 ** int(b[1]))))]
        if op == '<<' and isnum(b):
            return [(s, mul(a, num(2 ** int(b[1]))))]
        if op in ('|', '&', '^') and isbool(tr):
            pass
        return [(s, ('op', op, a, b))]

    def e_un(self, n, st):
        op = n['op']
        if op == '!':
            return self.boolval(n, st)
        if op == '&':
            if n['e']['k'] == 'mem' and n['e'].get('fn'):
                return [(st, ('fnp', n['e']['fn'].get('id')))]
            if n['e']['k'] == 'fn':
                return self.ev(n['e'], st)
            return [(s, addr_of(l) if not s.out else UNDEF) for s, l in self.lval(n['e'], st)]
        if op in ('++', '--'):
            out = []
            ts = self.p.t(n['e']['t'])
            for s, l in self.lval(n['e'], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                old = self.load(s, l, ts)
                new = self.incdec(old, op, ts)
                self.store(s, l, new, ts, n.get('l'))
                out.append((s, old if n['post'] else new))
            return out
        out = []
        for s, v in self.ev(n['e'], st):
            if s.out:
                out.append((s, UNDEF))
            elif op == '-':
                out.append((s, neg(v) if v[0] != 'c' else ('neg', v)))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('un', op, v)))
        return out

    def incdec(self, old, op, ts):
        one = num(1 if op == '++' else -1)
        if isptr(ts):
            if old[0] == 'padd':
                return ('padd', old[1], add(old[2], one))
            return ('padd', old, one)
        if isiter(old):
            return ('it', old[1], (('next' if op == '++' else 'prev'), old[2]))
        return add(old, one)

    # ------------------------------------------------ lvalues
    def varloc(self, st, vid, name):
        d = st.fr.depth
        r = st.mem.get(('ref', vid, d))
        if r is not None:
            return r
        if vid in st.fr.caps:
            return st.fr.caps[vid]
        return ('v', vid, d, name)

    def lval(self, n, st):
        k = n['k']
        if k == 'var':
            if n.get('bind') is not None and st.mem.get(('ref', n['id'], st.fr.depth)) is None and \
                    ('v', n['id'], st.fr.depth, n['n']) not in st.mem:
                return self.lval(n['bind'], st)
            if n.get('glob'):
                g = self.p.globals.get(n['id'])
                loc = ('g', n.get('q') or n['n'])
                if g and g.get('init') is not None and loc not in st.mem and isscalar(self.p.t(g['t'])):
                    res = self.ev(g['init'], st)
                    if len(res) == 1:
                        st.mem[loc] = res[0][1]
                return [(st, loc)]
            return [(st, self.varloc(st, n['id'], n['n']))]
        if k == 'mem':
            if n['arrow']:
                out = []
                for s, v in self.ev(n['b'], st):
                    if self.cfg.deref and not s.out:
                        self.cfg.deref(self, s, v, n)
                    out.append((s, self.fieldloc(s, v, n) if not s.out else UNDEF))
                return out
            if n['b'].get('lv') or n['b']['k'] in ('mat',):
                out = []
                for s, l in self.lval(n['b'], st):
                    out.append((s, self.fieldloc(s, addr_of(l), n) if not s.out else UNDEF))
                return out
            out = []
            for s, v in self.ev(n['b'], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                l = self.temp(s, v)
                out.append((s, self.fieldloc(s, addr_of(l), n)))
            return out
        if k == 'idx':
            out = []
            for s, vs in self.evs([n['b'], n['i']], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                b, i = vs
                if isptr(self.p.t(n['i']['t'])):
                    b, i = i, b
                if self.cfg.deref:
                    self.cfg.deref(self, s, b, n)
                out.append((s, self.elemloc(b, i)))
            return out
        if k == 'un':
            if n['op'] == '*':
                r = self.ev(n['e'], st)
                if self.cfg.deref:
                    for s, v in r:
                        if not s.out:
                            self.cfg.deref(self, s, v, n)
                return [(s, norm_obj(v) if not s.out else UNDEF) for s, v in r]
            if n['op'] in ('++', '--'):
                out = []
                ts = self.p.t(n['e']['t'])
                for s, l in self.lval(n['e'], st):
                    if not s.out:
                        self.store(s, l, self.incdec(self.load(s, l, ts), n['op'], ts), ts, n.get('l'))
                    out.append((s, l))
                return out
        if k == 'mat':
            out = []
            for s, v in self.ev(n['e'], st):
                out.append((s, self.temp(s, v) if not s.out else UNDEF))
            return out
        if k in ('asg', 'casg'):
            return self.assign(n, st)
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st):
                out += self.lval(n['a'] if b else n['b'], s) if not s.out else [(s, UNDEF)]
            return out
        if k == 'cast':
            return self.lval(n['e'], st)
        if k == 'bin' and n['op'] == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out += self.lval(n['b'], s) if not s.out else [(s, UNDEF)]
            return out
        if k == 'call':
            out = []
            for s, v in self.e_call(n, st):
                if s.out:
                    out.append((s, UNDEF))
                elif n.get('lv'):
                    if v[0] == 'LOC':
                        out.append((s, v[1]))
                    else:
                        out.append((s, norm_obj(v)))
                else:
                    out.append((s, self.temp(s, v)))
            return out
        if k == 'str':
            return [(st, ('g', 'str:' + n['v']))]
        if k in ('load',):
            return self.lval(n['e'], st)
        # rvalue used as object
        out = []
        for s, v in self.ev(n, st):
            out.append((s, self.temp(s, v) if not s.out else UNDEF))
        return out

    def temp(self, s, v):
        s.n += 1
        l = ('t', s.n)
        s.mem[l] = v
        return l

    def fieldloc(self, s, ptr, n):
        """location of member n['f'] of *ptr; resolves pairs of map iterators"""
        f = n['f']
        if ptr[0] == 'addr' and ptr[1][0] == 'ce' and f in ('first', 'second'):
            ce = ptr[1]
            if self.ismap(s, ce[1]):
                if f == 'second':
                    return ('mv', ce[1], self.keyof(s, ce))
                l = self.temp(s, self.keyof(s, ce))
                return l
        return ('f', ptr, f)

    def ismap(self, s, cloc):
        return ckind(self.ctypes.get(cloc, '')) in ('map', 'unordered_map', 'multimap')

    def keyof(self, s, ce):
        pos = ce[2]
        if pos[0] == 'key':
            return pos[1]
        if pos[0] == 'cur':
            return ('ekey', pos[1])
        return ('poskey', pos)

    def elemloc(self, b, i):
        if b[0] == 'addr' and isnum(i) and b[1][0] not in ('ce',):
            return ('f', b, '[%d]' % int(i[1]))
        if b[0] == 'padd':
            return ('el', b[1], add(b[2], i))
        return ('el', b, i)

    # assignment
    def e_asg(self, n, st):
        ts = self.p.t(n['a']['t'])
        return [(s, self.load(s, l, ts) if not s.out else UNDEF) for s, l in self.assign(n, st)]

    e_casg = e_asg

    def assign(self, n, st):
        ta, tb = self.p.t(n['a']['t']), self.p.t(n['b']['t'])
        out = []
        if n['k'] == 'asg':
            for s, v in self.ev(n['b'], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                for s2, l in self.lval(n['a'], s):
                    if not s2.out:
                        self.store(s2, l, self.conv(v, ta), ta, n.get('l'))
                    out.append((s2, l))
            return out
        for s, v in self.ev(n['b'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            for s2, l in self.lval(n['a'], s):
                if s2.out:
                    out.append((s2, UNDEF))
                    continue
                old = self.load(s2, l, ta)
                if isbool(ta) and n['op'] in ('|', '&', '^'):
                    for s3, bo in self.branch_v(s2, old, ta):
                        for s4, bv in self.branch_v(s3, v, tb):
                            r = (bo or bv) if n['op'] == '|' else (bo and bv) if n['op'] == '&' else (bo != bv)
                            self.store(s4, l, TRUE if r else FALSE, ta, n.get('l'))
                            out.append((s4, l))
                    continue
                for s3, nv in self.binop(s2, n['op'], old, v, ta, tb, ta):
                    self.store(s3, l, nv, ta, n.get('l'))
                    out.append((s3, l))
        return out

    def conv(self, v, ts):
        if isbool(ts) and v[0] == 'num':
            return TRUE if v[1] != 0 else FALSE
        if v[0] == 'b' and (isint(ts) or isflt(ts)) and not isbool(ts):
            return num(1 if v[1] else 0)
        return v

    # ------------------------------------------------ statements
    def ex(self, n, st):
        if n is None:
            return [st]
        self.steps += 1
        f = getattr(self, 's_' + n['k'], None)
        if f is None:
            st.imp = st.imp + ('statement %s at %s' % (n['k'], self.p.where(n.get('l'))),)
            return [st]
        r = f(n, st)
        if len(r) > 1:
            r = self.merge(r)
        if len(r) > self.MAXSTATES:
            raise TooComplex('too many states')
        return r

    LOSSY = 40

    def merge(self, states):
        """Joins states with equal effects and memory.  Joining is exact (the facts differ in
        the sign of one literal, or one set of facts implies the other) unless there are too many."""
        if len(states) < 2:
            return states
        groups = {}
        order = []
        for s in states:
            k = (s.out, tuple((e.key()) for e in s.trace), len(s.mem))
            try:
                hash(k)
            except TypeError:
                order.append(s)
                continue
            g = groups.setdefault(k, [])
            for cls in g:
                if cls[0].mem == s.mem and cls[0].frames == s.frames:
                    cls.append(s)
                    break
            else:
                cls = [s]
                g.append(cls)
                order.append(cls)
        out = []
        for c in order:
            if not isinstance(c, list):
                out.append(c)
                continue
            out += self.join(c)
        return out

    def join(self, c):
        changed = True
        while changed and len(c) > 1:
            changed = False
            for i in range(len(c)):
                for j in range(i + 1, len(c)):
                    a, b = c[i], c[j]
                    fa, fb = a.facts, b.facts
                    common = {k: v for k, v in fa.items() if fb.get(k) == v}
                    ra = [k for k in fa if k not in common]
                    rb = [k for k in fb if k not in common]
                    if not ra or not rb or (len(ra) == 1 and ra == rb) or len(c) > self.LOSSY:
                        a.facts = common
                        a.imp = a.imp + tuple(x for x in b.imp if x not in a.imp)
                        a.n = max(a.n, b.n)
                        del c[j]
                        changed = True
                        break
                if changed:
                    break
        return c

    def s_nop(self, n, st):
        return [st]

    def s_expr(self, n, st):
        if n['e'] is None:
            return [st]
        e = n['e']
        # the value is not needed: avoid forks of assert-like conditionals
        return [s for s, _ in self.ev(e, st)]

    def s_block(self, n, st):
        return self.ex_list(n['s'], st)

    def ex_list(self, stmts, st):
        cur = [st]
        i = 0
        while i < len(stmts):
            c = stmts[i]
            if c is None:
                i += 1
                continue
            if c['k'] == 'label':
                nxt = []
                for s in cur:
                    if s.out and s.out == ('goto', c['n']):
                        s.out = None
                    if s.out:
                        nxt.append(s)
                    else:
                        nxt += self.label_loop(c, [c['s']] + stmts[i + 1:], s)
                return self.merge(nxt)
            nxt = []
            for s in cur:
                if s.out:
                    nxt.append(s)
                else:
                    nxt += self.ex(c, s)
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
            i += 1
        return cur

    def s_label(self, n, st):
        return self.label_loop(n, [n['s']], st)

    def label_loop(self, lab, stmts, st):
        if not has_goto(stmts, lab['n']):
            return self.ex_list(stmts, st)
        def run(H):
            out = []
            for s in self.ex_list(stmts, H):
                if s.out == ('goto', lab['n']):
                    s.out = None
                    out.append(s)
                elif s.out is None:
                    s.out = ('normal',)
                    out.append(s)
                else:
                    out.append(s)
            return out
        return self.loop(st, lab, run)

    def s_goto(self, n, st):
        st.out = ('goto', n['n'])
        return [st]

    def s_decl(self, n, st):
        cur = [st]
        for d in n['d']:
            nxt = []
            for s in cur:
                nxt += self.decl(d, s) if not s.out else [s]
            cur = nxt
        return cur

    def decl(self, d, st):
        ts = self.p.t(d['t'])
        depth = st.fr.depth
        loc = ('v', d['id'], depth, d['n'])
        if d.get('ref'):
            st.mem.pop(('ref', d['id'], depth), None)
            out = []
            for s, l in self.lval(d['init'], st):
                if not s.out:
                    s.mem[('ref', d['id'], depth)] = l
                    if ckind(ts):
                        self.ctypes[l] = ts
                    self.binds(d, s, l)
                out.append(s)
            return out
        if ckind(ts):
            self.ctypes[loc] = ts
        if d.get('static'):
            g = ('g', 'static:' + d['n'])
            st.mem[('ref', d['id'], depth)] = g
            return [st]
        for k in [k for k in st.mem if k != loc and k[0] != 'ref' and is_sub(k, loc)]:
            del st.mem[k]
        st.mem.pop(('ref', d['id'], depth), None)
        if d.get('init') is None:
            st.mem[loc] = UNDEF
            return [st]
        out = self.init_loc(st, loc, d['init'], ts)
        for s in out:
            if not s.out:
                self.binds(d, s, loc)
        return out

    def binds(self, d, s, loc):
        for i, b in enumerate(d.get('bind') or []):
            if 'hold' in b:
                name = ('first', 'second')[i] if i < 2 else '[%d]' % i
                l = self.fieldloc(s, addr_of(loc), {'f': name})
                s.mem[('ref', b['hold'], s.fr.depth)] = l
                s.mem[('ref', b['id'], s.fr.depth)] = l

    def init_loc(self, st, loc, e, ts):
        """initialise an object in place"""
        if ckind(ts):
            self.ctypes[loc] = ts
        if e['k'] == 'ctor' and not (e.get('copy') or e.get('move')):
            return [s for s, _ in self.construct(e, st, addr_of(loc), loc)]
        out = []
        for s, v in self.ev(e, st):
            if not s.out:
                self.write_value(s, loc, v, ts, e.get('l'))
            out.append(s)
        return out

    def write_value(self, s, loc, v, ts, line):
        if loc[0] == 'el' and isscalar(ts):
            self.store(s, loc, v, ts, line)
        else:
            self.write(s, loc, self.conv(v, ts), line)

    def s_if(self, n, st):
        cur = [st]
        if n.get('init'):
            cur = self.ex(n['init'], st)
        if n.get('cv'):
            nxt = []
            for s in cur:
                nxt += self.decl(n['cv'], s) if not s.out else [s]
            cur = nxt
        out = []
        for s in cur:
            if s.out:
                out.append(s)
                continue
            base = dict(s.facts)
            cs = self.cond(n['c'], s)
            res = []
            for s2, b in cs:
                if s2.out:
                    res.append([s2])
                elif b:
                    res.append(self.ex(n['a'], s2))
                elif n.get('b') is not None:
                    res.append(self.ex(n['b'], s2))
                else:
                    res.append([s2])
            if len(cs) == 2 and len(res[0]) == 1 and len(res[1]) == 1:
                one = self.needless(res[0][0], res[1][0], base) or self.needless(res[1][0], res[0][0], base)
                if one is not None:
                    out.append(one)
                    continue
            for r in res:
                out += r
        return out

    def needless(self, idle, act, base):
        """One branch does nothing, and what the other does would change nothing there either
        (if (x != v) x = v, if (!s.count(k)) s.insert(k), if (p) delete p): the state after the statement
        is that of the other branch, whatever the condition"""
        if idle.out or act.out or idle.frames != act.frames or idle.imp != act.imp:
            return None
        k = len(idle.trace)
        if act.trace[:k] != idle.trace:
            return None
        extra = act.trace[k:]
        diff = [l for l in set(idle.mem) | set(act.mem) if idle.mem.get(l) != act.mem.get(l)]
        if len(extra) == 1 and extra[0].k == 'wr' and extra[0].obj[0] == 'f':
            # what the write makes uncertain because it might refer to the same object
            w = extra[0].obj
            diff = [l for l in diff if l == w or not (l[0] == 'f' and l[2] == w[2])]
            if w not in diff and not self.nochange(idle, self.read(idle.copy(), w), extra[0].args[0]):
                return None
        if not extra and not diff or len(diff) > 2 or len(extra) > 2:
            return None
        for e in extra:
            if e.k == 'delete':
                if decide(idle.facts, lit_eq(e.args[0], ('null',))) is not True:
                    return None
            elif e.k != 'wr' and (e.k != 'mut' or e.obj not in diff):
                return None
        for l in diff:
            if l not in act.mem or isinstance(l[0], tuple) or l[0] == 'ref':
                return None
            new = act.mem[l]
            old = idle.mem.get(l)
            if old is None:
                old = self.read(idle.copy(), l)
            if not isinstance(old, tuple) or not isinstance(new, tuple):
                return None
            if not self.nochange(idle, old, new):
                return None
        act.facts = {a: sg for a, sg in act.facts.items() if base.get(a) == sg or idle.facts.get(a) == sg}
        return act

    def nochange(self, s, old, new):
        if old == new:
            return True
        if new == EMPTY:
            l = self.lit_empty(old)
        elif new[0] in ('ins', 'erase') and len(new) == 3 and new[1] == old:
            l = self.lit_has(s, old, new[2])
            if isinstance(l, bool):
                return l == (new[0] == 'ins')
            return decide(s.facts, l) is (new[0] == 'ins')
        elif new[0] in CVAL or old[0] in CVAL:
            return False
        else:
            if new[0] == 'st' and (new[1] == old or old[0] == 'st' and old[1:3] == new[1:3]):
                old, new = elt(old, new[2]), new[3]   # one element of an array is written
                if old == new:
                    return True
            if new[0] == 'b' and old[0] != 'b':
                return decide(s.facts, (('t', old), True)) is new[1]
            l = lit_eq(old, new)
            if not isinstance(l, bool) and decide(s.facts, l) is not True:
                l = lit_zero(sub(old, new))
        if isinstance(l, bool):
            return l
        return decide(s.facts, l) is True

    def s_ret(self, n, st):
        if n.get('e') is None:
            st.out = ('ret', UNDEF)
            return [st]
        out = []
        fn = self.p.fn.get(st.fr.fn)
        rt = self.p.t(fn['rt']) if fn and isinstance(fn.get('rt'), int) else ''
        e = n['e']
        if rt.rstrip().endswith('&') and (e.get('lv')):
            for s, l in self.lval(e, st):
                if not s.out:
                    s.out = ('ret', addr_of(l))
                out.append(s)
            return out
        for s, v in self.ev(e, st):
            if not s.out:
                s.out = ('ret', v)
            out.append(s)
        return out

    def s_break(self, n, st):
        st.out = ('brk',)
        return [st]

    def s_continue(self, n, st):
        st.out = ('cont',)
        return [st]

    def s_try(self, n, st):
        out = []
        self.trydepth += 1
        try:
            res = self.ex(n['s'], st)
        finally:
            self.trydepth -= 1
        for s in res:
            if s.out and s.out[0] == 'throw' and n['h']:
                h = n['h'][0]
                exc = s.out[1]
                s.out = None
                if h.get('v'):
                    v = h['v']
                    if v.get('ref'):
                        s.mem[('ref', v['id'], s.fr.depth)] = self.temp(s, exc)
                    else:
                        s.mem[('v', v['id'], s.fr.depth, v['n'])] = exc
                r = self.ex(h['s'], s)
                for x in r:
                    if x.out and x.out[0] == 'throw' and x.out[1] == ('rethrow',):
                        x.out = ('throw', exc)
                out += r
            else:
                out.append(s)
        return out

    def s_switch(self, n, st):
        cur = [st]
        if n.get('init'):
            cur = self.ex(n['init'], st)
        if n.get('cv'):
            cur = [y for s in cur for y in (self.decl(n['cv'], s) if not s.out else [s])]
        body = n['s']['s'] if n['s'] and n['s']['k'] == 'block' else [n['s']]
        # flatten labels
        flat = []
        labels = []      # (index, caseexpr or None)
        def put(x):
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((len(flat), x.get('v') if x['k'] == 'case' else None))
                x = x['s']
            if x is not None:
                flat.append(x)
        for c in body:
            put(c)
        out = []
        tc = self.p.t(n['c']['t'])
        for s in cur:
            if s.out:
                out.append(s)
                continue
            for s1, v in self.ev(n['c'], s):
                if s1.out:
                    out.append(s1)
                    continue
                pend = [s1]
                dflt = None
                for idx, ce in labels:
                    if ce is None:
                        dflt = idx
                        continue
                    nxt = []
                    for s2 in pend:
                        for s3, cv in self.ev(ce, s2):
                            if v[0] in ('num', 'poly') and cv[0] in ('num', 'poly'):
                                l = lit_zero(sub(v, cv))
                            else:
                                l = lit_eq(v, cv)
                            for s4, b in self.branch(s3, l):
                                if b:
                                    out += self.ex_list(flat[idx:], s4)
                                else:
                                    nxt.append(s4)
                    pend = nxt
                for s2 in pend:
                    if dflt is not None:
                        out += self.ex_list(flat[dflt:], s2)
                    else:
                        out.append(s2)
        for s in out:
            if s.out == ('brk',):
                s.out = None
        return out

    # loops
    def s_while(self, n, st):
        def run(H):
            return self.iteration(n, H, cond=n['c'], body=n['s'], cv=n.get('cv'))
        return self.loop(st, n, run)

    def s_for(self, n, st):
        cur = [st]
        if n.get('init'):
            cur = self.ex(n['init'], st)
        out = []
        for s in cur:
            if s.out:
                out.append(s)
                continue
            def run(H):
                return self.iteration(n, H, cond=n.get('c'), body=n['s'], inc=n.get('inc'))
            out += self.loop(s, n, run)
        return out

    def s_do(self, n, st):
        # body; while (c) body   -- executed as: first iteration, then a while loop
        out = []
        for s in self.ex(n['s'], st):
            if s.out == ('cont',):
                s.out = None
            if s.out == ('brk',):
                s.out = None
                out.append(s)
                continue
            if s.out:
                out.append(s)
                continue
            def run(H):
                return self.iteration(n, H, cond=n['c'], body=n['s'])
            out += self.loop(s, n, run)
        return out

    def iteration(self, n, H, cond=None, body=None, inc=None, cv=None):
        """one trip; out: None = back edge, ('normal',) = condition false, others leave"""
        out = []
        starts = [H]
        if cv:
            starts = self.decl(cv, H)
        conds = []
        for h in starts:
            conds += [(h, True)] if cond is None else self.cond(cond, h)
        for s, b in conds:
            if s.out:
                out.append(s)
                continue
            if not b:
                s.out = ('normal',)
                out.append(s)
                continue
            for s2 in self.ex(body, s):
                if s2.out == ('cont',):
                    s2.out = None
                ends = [s2]
                if s2.out is None and inc is not None:
                    ends = [s3 for s3, _ in self.ev(inc, s2)]
                for s3 in ends:
                    if s3.out is None and cond is not None and not cv and self.leaves(cond, s3):
                        s3.out = ('brk',)
                    out.append(s3)
        return out

    def leaves(self, cond, s):
        """the loop condition certainly fails on this back edge (a flag was set)"""
        c = s.copy()
        c.trace = ()
        r = self.cond(cond, c)
        return bool(r) and all(x.out is None and not b and not x.trace for x, b in r)

    def s_rfor(self, n, st):
        cur = [st]
        if n.get('init'):
            cur = self.ex(n['init'], st)
        out = []
        for s in cur:
            if s.out:
                out.append(s)
                continue
            rts = self.p.t(n['r']['t'])
            for s2, cloc in self.lval(n['r'], s):
                if s2.out:
                    out.append(s2)
                    continue
                if ckind(rts):
                    self.ctypes.setdefault(cloc, rts)
                m = re.search(r'\[(\d+)\]$', strip(rts))
                if m:
                    out += self.rfor_array(n, s2, cloc, int(m.group(1)))
                else:
                    out += self.traverse(s2, n, cloc, lambda S, pos: self.bind_loopvar(n, S, cloc, pos), n['s'])
        return out

    def bind_loopvar(self, n, S, cloc, pos):
        v = n['v']
        bid = find_var(v.get('init'), '__begin')
        if bid is not None:
            S.mem[('v', bid[0], S.fr.depth, bid[1])] = ('it', cloc, pos)
        return self.decl(v, S)

    def rfor_array(self, n, st, cloc, size):
        cur = [st]
        done = []
        bid = find_var(n['v'].get('init'), '__begin')
        for i in range(size):
            nxt = []
            for s in cur:
                if bid is not None:
                    s.mem[('v', bid[0], s.fr.depth, bid[1])] = ('addr', ('f', ('addr', cloc), '[%d]' % i))
                for s1 in self.decl(n['v'], s):
                    for s2 in (self.ex(n['s'], s1) if not s1.out else [s1]):
                        if s2.out in (None, ('cont',)):
                            s2.out = None
                            nxt.append(s2)
                        elif s2.out == ('brk',):
                            s2.out = None
                            done.append(s2)
                        else:
                            done.append(s2)
            cur = nxt
        return cur + done

    def sources(self, C):
        """explicit elements of a container value, or None"""
        if C == EMPTY:
            return []
        if C[0] == 'push':
            b = self.sources(C[1])
            if b is None:
                return None
            return b + [C[2]] if C[3] == 'b' else [C[2]] + b
        if C[0] == 'ins' and C[1] == EMPTY:
            return [C[2]]
        return None

    def traverse(self, st, n, cloc, bind, body, kind='each'):
        """for each element of the container at cloc"""
        C = self.read(st, cloc)
        ex = self.sources(C)
        if ex is not None and len(ex) <= 4:
            cur, done = [st], []
            for e in ex:
                nxt = []
                for s in cur:
                    for s1 in bind(s, ('key', e)):
                        for s2 in (self.ex(body, s1) if not s1.out else [s1]):
                            if s2.out in (None, ('cont',)):
                                s2.out = None
                                nxt.append(s2)
                            elif s2.out == ('brk',):
                                s2.out = None
                                done.append(s2)
                            else:
                                done.append(s2)
                cur = nxt
            return cur + done

        def run(H):
            out = []
            L = H.lc_id
            return out
        L = self.loop_id(st, n)

        def run2(H):
            out = []
            for s, more in self.branch(H, (('more', L), True)):
                if not more:
                    s.out = ('normal',)
                    out.append(s)
                    continue
                for s1 in bind(s, ('cur', L)):
                    for s2 in (self.ex(body, s1) if not s1.out else [s1]):
                        if s2.out == ('cont',):
                            s2.out = None
                        out.append(s2)
            return out
        return self.loop(st, n, run2, kind=kind, cloc=cloc, L=L)

    def loop_id(self, st, n):
        st.lc += 1
        return '%s#%d.%d' % (n.get('l', [0, 0])[1], st.fr.depth, st.lc)

    def loop(self, st, n, run, kind=None, cloc=None, L=None):
        if L is None:
            L = self.loop_id(st, n)
            r = self.try_unroll(st, n, run)
            if r is not None:
                return r
        node = Loop(L, n.get('l'))
        node.fnid = st.fr.fn
        node.cloc = cloc
        node.over = self.read(st, cloc) if cloc is not None else None
        if kind:
            node.kind = kind
        phis, efields, notix = {}, set(), set()
        ixs = {}
        res = None
        for _ in range(25):
            H = st.copy()
            H.trace = ()
            H.imp = ()
            for loc in phis:
                for k in [k for k in H.mem if k != loc and k[0] != 'ref' and is_sub(k, loc)]:
                    del H.mem[k]
            for fk in efields:
                H.ep[fk] = (('L', L), 0)
                for k in [k for k in H.mem if k[0] not in ('ref', 'v', 't') and not islocal(k) and fieldkey(k) == fk and k not in phis]:
                    H.mem[k] = ('ld', k, ('L', L)) if k[0] != 'arr' else ('a0', k[1], ('L', L))
            for loc, t in phis.items():
                H.mem[loc] = t
                if not islocal(loc):
                    H.ep[fieldkey(loc)] = (('L', L), 0)
            H0 = H.copy()
            res = run(H)
            new = False
            was = set(phis)
            for b in res:
                if b.out is not None:
                    continue
                for fk in b.ep:
                    if fk.startswith('#') and b.ep[fk] != H0.ep.get(fk, 0) and fk not in efields:
                        efields.add(fk)
                        if fk.startswith('#m:'):
                            efields.add(fk[3:])
                        new = True
                for loc, v in b.mem.items():
                    if loc[0] == 'ref' or loc in phis:
                        if loc in phis and loc not in was and phis[loc][0] == 'ix':
                            # entered in this round: the next one sees how it advances
                            old = self.peek(H0, loc)
                            d = sub(v, old) if numericish(v) and numericish(old) else None
                            if d is None or not isnum(d):
                                notix.add(loc)
                                phis[loc] = ('phi', L, loc)
                            continue
                        if loc in phis and phis[loc][0] == 'ix' and loc not in notix:
                            d = sub(v, phis[loc]) if numericish(v) else None
                            if d is None or not isnum(d) or d[1] == 0 or ixs.get(loc, d[1]) != d[1]:
                                if d is not None and isnum(d) and d[1] == 0:
                                    pass
                                notix.add(loc)
                                phis[loc] = ('phi', L, loc)
                                new = True
                            else:
                                ixs[loc] = d[1]
                        continue
                    if loc[0] == 't' and loc not in H0.mem:
                        continue
                    if islocal(loc) and not self.known(H0, loc):
                        continue
                    old = self.peek(H0, loc)
                    if old == v:
                        continue
                    if not islocal(loc) and loc not in H0.mem:
                        if contains(loc, lambda x: per_iter(x, L)) or (
                                contains(loc, lambda x: x[0] in ('new', 'ret', 'elem', 'ix') and not known_before(x, st))):
                            fk = fieldkey(loc)
                            if fk not in efields:
                                efields.add(fk)
                                new = True
                            continue
                    # skip a sub-location when its parent is a phi
                    if any(loc != q and is_sub(loc, q) for q in phis):
                        continue
                    phis[loc] = self.mkphi(L, loc, old, v, phis)
                    new = True
            if not new:
                break
        else:
            raise TooComplex('loop fixpoint')
        return self.finish_loop(st, n, node, L, phis, ixs, efields, H0, res)

    def known(self, H, loc):
        l = loc
        while l is not None:
            if l in H.mem:
                return True
            l = parent(l)
        return False

    def peek(self, H, loc):
        v = H.mem.get(loc)
        if v is not None:
            return v
        return self.read(H, loc) if loc[0] != 'arr' else self.initial(H, loc)

    def mkphi(self, L, loc, old, new, phis):
        if isiter(new):
            tag = '' if not any(isiter(t) and t[2] == ('cur', L) for t in phis.values()) else fmt(loc)
            if old[0] == 'it' and old[1] == new[1] and new[2][0] in ('next', 'prev', 'cur'):
                return ('it', new[1], ('cur', L) if not tag else ('cur', L + tag))
            return ('phi', L, loc)
        if loc[0] == 'arr':
            return ('aphi', L, loc[1])
        if ckind(self.ctypes.get(loc, '')) or new[0] in CVAL and old[0] in CVAL + ('ld', 'undef', 'dflt'):
            return ('cphi', L, loc)
        if numericish(old) and numericish(new) and old[0] not in ('undef',):
            d = sub(new, old)
            if isnum(d):
                nix = sum(1 for t in phis.values() if t[0] == 'ix')
                return ('ix', L if nix == 0 else '%s/%d' % (L, nix))
        return ('phi', L, loc)

    def try_unroll(self, st, n, run, limit=12):
        """executes a loop whose trip count is fixed by constants"""
        cur = st.copy()
        for _ in range(limit):
            t0 = cur.trace
            nf = len(cur.facts)
            backup = cur.copy()
            res = run(cur)
            back = [s for s in res if s.out is None]
            norm = [s for s in res if s.out == ('normal',)]
            if len(res) == 1 and norm:
                norm[0].out = None
                return norm
            if norm or len(back) != 1 or len(res) != 1:
                return None
            cur = back[0]
        return None

    def finish_loop(self, st, n, node, L, phis, ixs, efields, H, res):
        backs = [s for s in res if s.out is None]
        norms = [s for s in res if s.out == ('normal',)]
        exits = [s for s in res if s.out is not None and s.out != ('normal',)]
        hf = H.facts

        def delta(s):
            return {a: v for a, v in s.facts.items() if hf.get(a) != v}
        # iterator advance
        curs = {loc: t for loc, t in phis.items() if isiter(t)}
        for loc, t in curs.items():
            for b in backs:
                v = b.mem.get(loc)
                if v is None or not isiter(v) or v[2] != ('next', t[2]):
                    node.regular = False
                    if v is not None and isiter(v) and v[2] == ('next', ('next', t[2])):
                        node.why = 'skips an element'
                    elif v == t:
                        node.why = 'does not advance on a path'
                    else:
                        node.why = 'advances irregularly'
            start = self.peek(st, loc)
            if node.kind == 'while' and t[2] == ('cur', L):
                node.kind = 'each'
                node.cloc = t[1]
                node.over = self.read(st, t[1])
                if not (isiter(start) and start[2][0] == 'begin'):
                    node.regular = False
                    node.why = 'does not start at the beginning'
                # normal exit has to be the end of the container
                for s in norms:
                    if s.facts.get(('done', L)) is not True:
                        node.regular = False
                        node.why = 'may stop before the end'
        # index loops
        subst_final = {}
        for loc, t in phis.items():
            if t[0] == 'ix' and loc not in (x for x in ()):
                step = ixs.get(loc)
                start = self.peek(st, loc)
                end = None
                for s in norms:
                    e = self.ix_bound(delta(s), t, step)
                    if e is None or (end is not None and e != end):
                        end = None
                        break
                    end = e
                if norms and step and all(self.ix_bound(delta(s), t, -step) is not None and self.ix_bound(delta(s), t, step) is None for s in norms):
                    node.away = True
                    T.AWAY[t[1]] = step
                if end is not None and norms:
                    subst_final[t] = end
                    if node.kind == 'while':
                        node.kind = 'index'
                        if step == 1:
                            node.range = (start, end)
                            T.LOOPRANGE[t[1]] = (start, end)
                        elif step == -1:
                            node.range = (add(end, num(1)), add(start, num(1)))
                            node.desc = True
                            T.LOOPRANGE[t[1]] = node.range
                        else:
                            node.range = (start, end, step)
        # consuming loops
        for loc, t in phis.items():
            if t[0] == 'cphi':
                emptied = norms and all(decide(s.facts, self.lit_empty(t)) is True or self.peek(s, loc) == EMPTY for s in norms)
                if node.kind == 'while' and emptied:
                    pops = [b.mem.get(loc) for b in backs]
                    node.cloc = loc
                    node.over = self.peek(st, loc)
                    if pops and all(v == ('pop', t) for v in pops):
                        node.kind = 'fifo'
                    elif pops and all(v == ('popb', t) for v in pops):
                        node.kind = 'lifo'
                    elif pops and all(v is not None and contains(v, lambda x: x == t) for v in pops) and \
                            all(v[0] == 'erase' and v[1] == t for v in pops):
                        node.kind = 'drain'
                    else:
                        node.kind = 'worklist'
        # arrays written pointwise
        for loc, t in phis.items():
            if t[0] != 'aphi':
                continue
        node.paths = [Path(delta(b), b.trace, None, b) for b in backs]
        node.exits = [Path(delta(s), s.trace, s.out, s) for s in exits]
        node.hfacts = dict(hf)
        for loc, t in phis.items():
            node.updates[loc] = (self.peek(st, loc), t, [(p, p.st.mem.get(loc)) for p in node.paths])
        node.efields = set(efields)
        lams = self.array_lams(st, node, L, phis, H, backs)
        flags = []
        for loc, (init, t, ups) in node.updates.items():
            if t[0] == 'phi' and init in (TRUE, FALSE):
                other = TRUE if init == FALSE else FALSE
                if all(v in (t, init, other) for _, v in ups) and any(v == other for _, v in ups) and \
                        not any(v == init for _, v in ups):
                    flags.append((loc, t, init, other))
        out = []
        imp = st.imp
        for s in res:
            imp = imp + tuple(i for i in s.imp if i not in imp)

        def fin_mem(s, normal):
            m = {}
            for k, v in s.mem.items():
                if k[0] != 'ref' and contains(k, lambda x: per_iter(x, L)) and not normal and False:
                    continue
                m[k] = v
            return m
        for s in norms:
            s.out = None
            mp = dict(subst_final)
            for loc, t in phis.items():
                if isiter(t):
                    if s.facts.get(('done', t[2][1])) is True:
                        s.mem[loc] = ('it', t[1], END)
                elif t[0] == 'cphi':
                    if decide(s.facts, self.lit_empty(t)) is True:
                        if s.mem.get(loc) == t:
                            s.mem[loc] = EMPTY
                    elif s.mem.get(loc) == t:
                        s.mem[loc] = self.collected(node, loc, t)
                elif t[0] == 'aphi' and loc in lams and s.mem.get(loc) == t:
                    s.mem[loc] = lams[loc]
                elif t[0] == 'phi' and loc in node.updates:
                    r = self.reduction(node, loc)
                    if r is not None and s.mem.get(loc) == t:
                        s.mem[loc] = r
            if mp:
                f = lambda x: mp.get(x)
                for k in list(s.mem):
                    v = s.mem[k]
                    if isinstance(v, tuple) and contains(v, lambda x: x in mp):
                        s.mem[k] = subst(v, f)
            if self.drains(node) and not exits:
                # a loop that takes everything out and does nothing else
                done = () if islocal(node.cloc) else (Ev('mut', name='clear', obj=node.cloc, line=n.get('l'), fn=st.fr.fn, x=node.over),)
                s.trace = st.trace + done + s.trace
            else:
                s.trace = st.trace + (Ev('loop', x=node, line=n.get('l'), fn=st.fr.fn),) + s.trace
            s.facts[('complete', L)] = True
            for X in self.sought(node, L):
                self.note_has(s, node, X, False)
            s.lc = st.lc
            s.imp = imp
            sts = [s]
            for loc, t, init, other in flags:
                nx = []
                for x in sts:
                    if x.mem.get(loc) != t:
                        nx.append(x)
                        continue
                    y = x.copy()
                    x.mem[loc] = init
                    x.facts[('some', L, loc)] = False
                    y.mem[loc] = other
                    y.facts[('some', L, loc)] = True
                    nx += [x, y]
                sts = nx
            out += sts
        for s in exits:
            pn = node.copy(True)
            s.trace = st.trace + (Ev('loop', x=pn, line=n.get('l'), fn=st.fr.fn),) + s.trace
            s.lc = st.lc
            s.imp = imp
            for a, sg in list(s.facts.items()):
                X = elem_eq(a, L) if sg else None
                if X is not None:
                    self.note_has(s, node, X, True)
            if s.out == ('brk',):
                s.out = None
            out.append(s)
        # the loop may never be left: then no state leaves it
        return self.merge(out)

    def drains(self, node):
        c = node.cloc
        return node.kind in ('fifo', 'lifo') and node.regular and c is not None and bool(node.paths) and all(k == c for k in node.updates) and all(
            p.trace == () and islocal(c) or p.trace and all(e.k == 'mut' and e.name in ('pop', 'popb') and e.obj == c for e in p.trace) for p in node.paths)

    def sought(self, node, L):
        """values every element visited by the loop was found to differ from"""
        if node.kind != 'each' or not node.regular or node.over is None or not node.paths:
            return []
        r = None
        for p in node.paths:
            x = {X for X in (elem_eq(a, L) for a, sg in p.facts.items() if sg is False) if X is not None}
            r = x if r is None else r & x
        return sorted(r, key=repr)

    def note_has(self, s, node, X, found):
        if node.kind != 'each' or node.over is None or X == ('null',):
            return
        l = self.lit_has(s, node.over, X)
        if isinstance(l, tuple) and l[0] not in s.facts:
            s.facts[l[0]] = l[1] == found

    def ix_bound(self, d, t, step):
        for a, sg in d.items():
            if a[0] == 'ipos':
                # k*t + rest > 0 ; with unit coefficient
                p = to_poly(a[1])
                c = p.pop(((t, 1),), None)
                if c not in (1, -1):
                    continue
                rest = mk_poly(p)
                if contains(rest, lambda x: x == t):
                    continue
                if c == 1 and sg and step and step > 0:      # exit when t + rest > 0  -> first t = 1 - rest
                    return sub(num(1), rest)
                if c == -1 and not sg and step and step > 0:  # exit when not(-t+rest > 0): t >= rest
                    return rest
                if c == 1 and not sg and step and step < 0:   # exit when t + rest <= 0 : t = -rest
                    return neg(rest)
                if c == -1 and sg and step and step < 0:
                    return sub(rest, num(1))
            if a[0] == 'zero' and sg:
                p = to_poly(a[1])
                c = p.pop(((t, 1),), None)
                if c is None:
                    continue
                rest = mk_poly(p)
                if not contains(rest, lambda x: x == t):
                    return scale(rest, -1 / c)
        return None

    def collected(self, node, loc, t):
        """value of a container that a complete loop only added to"""
        init, _, ups = node.updates[loc]
        adds = []
        for p, v in ups:
            xs = []
            w = v
            while w is not None and w != t and w[0] in ('push', 'ins'):
                xs.append(w[2])
                w = w[1]
            if w != t:
                return ('cfin', node.id, loc)
            adds.append((tuple(sorted(p.facts.items(), key=repr)), tuple(reversed(xs))))
        return ('coll', node.id, init, tuple(adds))

    def reduction(self, node, loc):
        init, t, ups = node.updates[loc]
        vals = set()
        keep = False
        for p, v in ups:
            if v == t:
                keep = True
            elif v is not None:
                vals.add(v)
        if not vals:
            return None
        if len(vals) == 1:
            (v,) = vals
            # v = max(t, x)  (written as a call)
            if v[0] == 'ap' and v[1] == 'max':
                a = ap_payload(v)
                if t in a:
                    x = [y for y in a if y != t][0]
                    if not contains(x, lambda y: y == t):
                        return self.mkmax(node, init, x)
            # conditional form: path with new value x under x > t, path keeping t otherwise
            if not contains(v, lambda y: y == t):
                ok = True
                for p, w in ups:
                    d1 = decide(p.facts, lit_pos(sub(v, t), False))
                    d2 = decide(p.facts, lit_pos(sub(t, v), False))
                    if w == v and not (d1 is True or d2 is False):
                        ok = False
                    if w == t and not (d1 is False or d2 is True):
                        ok = False
                if ok and keep:
                    return self.mkmax(node, init, v)
            # sum
            d = sub(v, t) if numericish(v) else None
            if not keep and d is not None and not contains(d, lambda y: y == t):
                return self.mkred('sumred', node, init, d)
        return None

    def mkmax(self, node, init, x):
        return self.mkred('maxred', node, init, x)

    def mkred(self, kind, node, init, x):
        L = node.id
        if node.range and len(node.range) == 2:
            b = subst(x, lambda y: BIND if y == ('ix', L) else None)
            return ap(kind, node.range[0], node.range[1], b, init)
        return ap(kind + '?', ('str', L), x, init)

    def array_lams(self, st, node, L, phis, H, backs):
        lams = {}
        for loc, t in phis.items():
            if t[0] != 'aphi':
                continue
            base = self.peek(st, loc)
            if node.away:
                lams[loc] = base       # counts away from its limit: the body is not meant to run at all
                continue
            vals = []
            ok = bool(backs) and node.range is not None and len(node.range) == 2
            idx = ('ix', L)
            for b in backs:
                v = b.mem.get(loc)
                if v == t:
                    vals.append((delta_facts(b, H), ('elt', base, idx)))
                elif v[0] == 'st' and v[1] == t and v[2] == idx:
                    vals.append((delta_facts(b, H), v[3]))
                else:
                    ok = False
            if not ok:
                lams[loc] = self.moved_lam(node, L, t, base, backs, loc) or ('afin', L, loc[1])
                continue
            # reads of the same array at the current index see its old content
            f = lambda x: elt(base, x[2]) if x[0] == 'elt' and x[1] == t and x[2] == idx else None
            vals = [(fs, subst(v, f)) for fs, v in vals]
            if any(contains(v, lambda x: x == t) for _, v in vals):
                lams[loc] = ('afin', L, loc[1])
                continue
            ds = set(v for _, v in vals)
            if len(ds) == 1:
                body = vals[0][1]
            else:
                body = ap('cases', *[ap('case', tuple_facts(fs), v) for fs, v in vals])
            lams[loc] = lam(node.range[0], node.range[1], body, base, L)
            # also rewrite the recorded effects of this loop
        return lams

    def moved_lam(self, node, L, t, base, backs, loc):
        """a loop that stores on every round at a shifted position, or always at the same one"""
        idx = ('ix', L)
        if node.range is None or len(node.range) != 2 or not backs:
            return None
        vs = [b.mem.get(loc) for b in backs]
        if all(v is not None and (v == t or v[0] == 'st' and v[1] == t and v[2][0] == 'num') for v in vs) and len({v[2] for v in vs if v != t}) == 1:
            i = next(v[2] for v in vs if v != t)
            if len(vs) > 1 or contains(vs[0][3], lambda x: x == t or x[0] in ('phi', 'aphi', 'lphi')):
                return lam(i, add(i, num(1)), ('unk', 'fixed', L), base, L)
        if len(backs) != 1:
            return None
        v = backs[0].mem.get(loc)
        if v[0] != 'st' or v[1] != t or contains(v[3], lambda x: x == t or x[0] in ('phi', 'aphi', 'lphi')):
            return None
        d = sub(v[2], idx) if numericish(v[2]) else None
        if d is None:
            return None
        s, e = node.range
        if not contains(d, lambda x: x == idx or x[0] in ('phi', 'aphi', 'lphi', 'unk')):
            body = subst(v[3], lambda x: sub(idx, d) if x == idx else None)
            return lam(add(s, d), add(e, d), body, base, L)
        if not contains(v[2], lambda x: x == idx or x[0] in ('phi', 'aphi', 'lphi', 'unk')):
            body = subst(v[3], lambda x: sub(e, num(1)) if x == idx else None)
            return lam(v[2], add(v[2], num(1)), body, base, L)
        return None

    # ------------------------------------------------ containers
    def lit_empty(self, C):
        k = C[0]
        if C == EMPTY or (k == 'dflt'):
            return True
        if k in ('push', 'ins', 'touch'):
            return False
        if k == 'app':
            l = self.lit_empty(C[2])
            if l is False:
                return False
            if l is True:
                return self.lit_empty(C[1])
        return (('emptyc', C), True)

    def lit_has(self, s, C, key):
        k = C[0]
        if C == EMPTY:
            return False
        if k in ('ins', 'touch'):
            if C[2] == key:
                return True
            l = lit_eq(C[2], key)
            d = decide(s.facts, l)
            if d is True:
                return True
            if d is False:
                return self.lit_has(s, C[1], key)
        if k == 'erase':
            if C[2] == key:
                return False
            d = decide(s.facts, lit_eq(C[2], key))
            if d is True:
                return False
            if d is False:
                return self.lit_has(s, C[1], key)
        return (('has', C, key), True)

    def iter_eq(self, s, a, b):
        if a == b:
            return True
        pa, pb = a[2], b[2]
        if pb != END and pa == END:
            pa, pb = pb, pa
        if pb == END:
            if pa[0] == 'cur':
                return (('done', pa[1]), True)
            if pa[0] == 'begin':
                return self.lit_empty(pa[1])
            if pa[0] == 'find':
                return lnot(self.lit_has(s, pa[1], pa[2]))
            if pa[0] in ('found', 'ins', 'at', 'last'):
                return False
            if pa[0] == 'next':
                return (('atend', pa), True)
            if pa[0] == 'prev':
                return False
        if pa[0] == 'next' and pa[1] == pb or pb[0] == 'next' and pb[1] == pa:
            return False
        return (('eq',) + tuple(sorted((a, b), key=repr)), True)

    def note_end(self, s, it, line):
        """an iterator is used that may be the end of its container"""
        pos = it[2]
        if pos == END or pos[0] == 'find' and decide(s.facts, self.lit_has(s, pos[1], pos[2])) is not True:
            s.ev(Ev('enditer', obj=it[1], args=(pos[2] if pos != END else None,), line=line, fn=s.fr.fn))

    def deref(self, s, it):
        """location an iterator refers to"""
        pos = it[2]
        c = it[1]
        if pos[0] == 'begin':
            return ('ce', c, ('front',))
        if pos[0] == 'find':
            return ('ce', c, ('key', pos[2]))
        if pos[0] == 'key':
            return ('ce', c, pos)
        return ('ce', c, pos)

    def cop(self, st, n, name, cloc, cts, args, argn):
        """operation `name` on the container at cloc; args are values"""
        C = self.read(st, cloc)
        if C[0] in ('undef', 'dflt'):
            C = EMPTY
        line = n.get('l')
        kind = ckind(cts)
        self.ctypes.setdefault(cloc, cts)

        def mut(op, newC, *a):
            if not islocal(cloc):
                st.ev(Ev('mut', name=op, obj=cloc, args=tuple(a), line=line, fn=st.fr.fn, x=C))
            # replace the value, keep element locations that are still valid
            keep = {}
            if op in ('push', 'ins', 'pop', 'eraseat', 'popb', 'touch'):
                keep = {k: v for k, v in st.mem.items() if k[0] != 'ref' and k != cloc and is_sub(k, cloc)}
            self.write(st, cloc, newC, line, ev=False)
            st.mem.update(keep)
        if name == 'empty':
            return [(s, TRUE if b else FALSE) for s, b in self.branch(st, self.lit_empty(C))]
        if name in ('size',):
            if C == EMPTY:
                return [(st, num(0))]
            if kind == 'vector' and C[0] == 'sized':
                return [(st, C[1])]
            return [(st, ('size', C))]
        if name == 'clear':
            mut('clear', EMPTY)
            return [(st, UNDEF)]
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if kind in ('set', 'unordered_set', 'multiset', 'map', 'unordered_map', 'multimap'):
                vs = [a for a in args if not (isiter(a))]
                if len(args) >= 2 and len(vs) == 0 and isiter(args[0]):
                    v = ('range', args[0], args[1])
                    mut('insrange', ('app', v, C), v)
                    return [(st, UNDEF)]
                if kind in ('map', 'unordered_map'):
                    if len(vs) >= 2:
                        k, val = vs[0], vs[1]
                    else:
                        k, val = get(vs[0], 'first'), get(vs[0], 'second')
                    had = self.lit_has(st, C, k)
                    outs = []
                    for s, b in self.branch(st, had):
                        if b and name != 'insert_or_assign':
                            outs.append((s, struct({'first': ('it', cloc, ('find', C, k)), 'second': FALSE})))
                            continue
                        st2 = s
                        if not islocal(cloc):
                            s.ev(Ev('mut', name='ins', obj=cloc, args=(k, val), line=line, fn=s.fr.fn, x=C))
                        self.write(s, ('mv', cloc, k), val, line)
                        m = {kk: vv for kk, vv in s.mem.items() if kk != cloc and kk[0] != 'ref' and is_sub(kk, cloc)}
                        self.write(s, cloc, ('ins', C, k), line, ev=False)
                        s.mem.update(m)
                        outs.append((s, struct({'first': ('it', cloc, ('key', k)), 'second': TRUE if not b else FALSE})))
                    return outs
                v = vs[-1]
                if name == 'emplace' and len(vs) > 1:
                    v = self.build_elem(cts, vs)
                mut('ins', ('ins', C, v), v)
                return [(st, struct({'first': ('it', cloc, ('key', v)), 'second': ('lit', ('has', C, v), False)}))]
            if name == 'insert' and args and isiter(args[0]):
                pos = args[0]
                if len(args) == 2:
                    v = args[1]
                    if pos[2] == END:
                        mut('push', ('push', C, v, 'b'), v)
                    elif pos[2][0] == 'begin':
                        mut('push', ('push', C, v, 'f'), v)
                    else:
                        mut('insert', ('insat', C, pos, v), v)
                    return [(st, ('it', cloc, ('key', v)))]
                if len(args) == 3 and isiter(args[1]):
                    v = ('range', args[1], args[2])
                    rng = self.whole_range(st, args[1], args[2])
                    if rng is not None:
                        v = rng
                    mut('insrange', ('app', v, C), v)
                    return [(st, UNDEF)]
            front = name in ('push_front', 'emplace_front')
            v = args[0] if len(args) == 1 else self.build_elem(cts, args)
            mut('push', ('push', C, v, 'f' if front else 'b'), v)
            return [(st, UNDEF)]
        if name in ('pop_front', 'pop'):
            if C[0] == 'push' and C[3] == 'f':
                mut('pop', C[1])
            elif C[0] == 'push' and C[1] == EMPTY:
                mut('pop', EMPTY)
            else:
                mut('pop', ('pop', C) if kind != 'stack' else ('popb', C))
            return [(st, UNDEF)]
        if name == 'pop_back':
            if C[0] == 'push' and C[3] == 'b':
                mut('popb', C[1])
            else:
                mut('popb', ('popb', C))
            return [(st, UNDEF)]
        if name in ('front',) or (name == 'top' and kind != 'stack'):
            return [(st, ('LOC', ('ce', cloc, ('front',))))]
        if name in ('back', 'top'):
            return [(st, ('LOC', ('ce', cloc, ('back',))))]
        if name in ('begin', 'cbegin'):
            return [(st, ('it', cloc, ('begin', C)))]
        if name in ('end', 'cend'):
            return [(st, ('it', cloc, END))]
        if name in ('rbegin', 'rend', 'crbegin', 'crend'):
            return [(st, ('it', cloc, ('begin', C) if 'begin' in name else END))]
        if name in ('find', 'lower_bound'):
            return [(st, ('it', cloc, ('find', C, args[0])))]
        if name in ('count', 'contains'):
            return [(s, (num(1) if b else num(0)) if name == 'count' else (TRUE if b else FALSE))
                    for s, b in self.branch(st, self.lit_has(st, C, args[0]))]
        if name in ('operator[]', 'at'):
            if kind in ('map', 'unordered_map'):
                k = args[0]
                l = self.lit_has(st, C, k)
                if decide(st.facts, l) is not True and name == 'operator[]':
                    if C[0] != 'touch':
                        keep = {kk: vv for kk, vv in st.mem.items() if kk[0] != 'ref' and kk != cloc and is_sub(kk, cloc)}
                        # an entry is created when missing; whether it existed is not decided here
                        st.mem[cloc] = C
                        st.mem.update(keep)
                    if not islocal(cloc):
                        st.ev(Ev('touch', obj=cloc, args=(k,), line=line, fn=st.fr.fn))
                return [(st, ('LOC', ('mv', cloc, k)))]
            return [(st, ('LOC', ('el', ('vdata', cloc), args[0])))]
        if name == 'data':
            return [(st, ('vdata', cloc))]
        if name == 'erase':
            a = args[0]
            if len(args) == 2 and isiter(a):
                rng = self.whole_range(st, a, args[1])
                if rng is not None:
                    mut('clear', EMPTY)
                    return [(st, ('it', cloc, END))]
                if a[2][0] == 'removed':
                    mut('rmif', ('rm', C, a[2][1]), a[2][1])
                    return [(st, ('it', cloc, END))]
                mut('eraserange', ('eraser', C, a, args[1]), a, args[1])
                return [(st, ('it', cloc, END))]
            if isiter(a):
                pos = a[2]
                self.note_end(st, a, line)
                el = self.load(st, self.deref(st, a), '')
                if kind in ('map', 'unordered_map', 'set', 'unordered_set'):
                    key = self.keyof(st, ('ce', cloc, pos)) if self.ismap(st, cloc) else el
                    if pos[0] == 'find':
                        key = pos[2]
                    mut('erase', ('erase', C, key), key)
                elif pos[0] == 'begin':
                    mut('pop', ('pop', C))
                else:
                    mut('eraseat', ('eraseat', C, pos), el)
                return [(st, ('it', cloc, ('next', pos)))]
            mut('erase', ('erase', C, a), a)
            return [(st, num(1))]
        if name in ('remove', 'remove_if'):
            v = args[0]
            if v[0] == 'lambda':
                return self.remove_if(st, n, cloc, C, v, mut)
            mut('rm', ('rm', C, v), v)
            return [(st, UNDEF)]
        if name == 'swap':
            oloc = argn[0] if argn else None
            if oloc is not None:
                D = self.read(st, oloc)
                if D[0] in ('undef', 'dflt'):
                    D = EMPTY
                mut('assign', D, D)
                if not islocal(oloc):
                    st.ev(Ev('mut', name='assign', obj=oloc, args=(C,), line=line, fn=st.fr.fn, x=D))
                self.write(st, oloc, C, line, ev=False)
                return [(st, UNDEF)]
        if name in ('splice', 'merge'):
            oloc = argn[-1] if name == 'merge' else (argn[1] if len(argn) > 1 else None)
            if oloc is not None and len(args) == 2:
                D = self.read(st, oloc)
                if D[0] in ('undef', 'dflt'):
                    D = EMPTY
                mut('insrange', ('app', D, C) if C != EMPTY else D, D)
                if not islocal(oloc):
                    st.ev(Ev('mut', name='clear', obj=oloc, line=line, fn=st.fr.fn, x=D))
                self.write(st, oloc, EMPTY, line, ev=False)
                return [(st, UNDEF)]
        if name in ('resize', 'assign', 'reserve', 'shrink_to_fit', 'capacity', 'max_size'):
            if name == 'resize':
                mut('resize', ('sized', args[0], C), args[0])
                if len(args) > 1:
                    st.mem[('arr', ('vdata', cloc))] = ('fillall', args[1])
            elif name == 'assign' and len(args) == 2 and not isiter(args[0]):
                mut('resize', ('sized', args[0], C), args[0])
                st.mem[('arr', ('vdata', cloc))] = ('fillall', args[1])
            return [(st, ('sizev', C) if name == 'capacity' else UNDEF)]
        if name == 'operator=':
            mut('assign', args[0], args[0])
            return [(st, ('LOC', cloc))]
        st.imp = st.imp + ('container operation %s at %s' % (name, self.p.where(line)),)
        st.n += 1
        mut('unknown:' + name, ('cunk', st.n))
        return [(st, ('unk', name, st.n))]

    def remove_if(self, st, n, cloc, C, lamv, mut):
        """list.remove_if(pred): as a traversal that erases matching elements"""
        L = self.loop_id(st, n)

        def run(H):
            out = []
            for s, more in self.branch(H, (('more', L), True)):
                if not more:
                    s.out = ('normal',)
                    out.append(s)
                    continue
                loc = ('ce', cloc, ('cur', L))
                for s2, v in self.call_lambda(s, lamv, [('LOC', loc)], n):
                    for s3, b in (self.branch_v(s2, v, 'bool') if not s2.out else [(s2, False)]):
                        if b:
                            el = self.read(s3, loc)
                            if not islocal(cloc):
                                s3.ev(Ev('mut', name='eraseat', obj=cloc, args=(el,), line=n.get('l'), fn=s3.fr.fn))
                            s3.mem[cloc] = ('eraseat', self.read(s3, cloc), ('cur', L))
                        out.append(s3)
            return out
        return [(s, num(0)) for s in self.loop(st, n, run, kind='each', cloc=cloc, L=L)]

    def whole_range(self, st, a, b):
        if isiter(a) and isiter(b) and a[1] == b[1] and a[2][0] == 'begin' and b[2] == END:
            return self.read(st, a[1])
        return None

    def build_elem(self, cts, args):
        m = re.match(r'^[\w:]+<(.*)>$', strip(cts))
        et = split_targs(m.group(1))[0] if m else ''
        if not args and et in self.p.records:
            return ('dflt', et)
        if et.startswith('std::pair<') and len(args) == 2:
            return struct({'first': args[0], 'second': args[1]})
        for name, r in self.p.records.items():
            if et == name:
                fs = [f['n'] for f in r['f']]
                if len(fs) == len(args):
                    return struct(dict(zip(fs, args)))
        return ('init', et) + tuple(args)

    # ------------------------------------------------ construction
    def construct(self, n, st, ptr, loc=None):
        """constructor call n on the object at ptr: [(state, value)]"""
        f = n['f']
        ts = strip(self.p.t(n['t']))
        loc = loc if loc is not None else norm_obj(ptr)
        cls = f.get('clsb', '')
        kd = ckind(ts)
        if kd:
            self.ctypes[loc] = ts
            out = []
            for s, vs in self.evs(n['args'], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                vs = [v for v in vs if v[0] != 'dflt' or 'allocator' not in v[1]]
                if not vs:
                    v = EMPTY
                elif n.get('copy') or n.get('move'):
                    v = vs[0]
                elif len(vs) == 2 and self.whole_range(s, vs[0], vs[1]) is not None:
                    v = self.whole_range(s, vs[0], vs[1])
                elif vs and vs[0][0] == 'init':
                    v = EMPTY
                    for x in vs[0][2:]:
                        v = ('push', v, x, 'b')
                elif vs and vs[0][0] == 'struct' and all(k.startswith('[') for k, _ in vs[0][1]):
                    v = EMPTY
                    for k, x in vs[0][1]:
                        v = ('push', v, x, 'b')
                elif kd == 'vector':
                    v = ('sized', vs[0], EMPTY)
                    if len(vs) > 1:
                        s.mem[('arr', ('vdata', loc))] = ('fillall', vs[1])
                    else:
                        s.mem[('arr', ('vdata', loc))] = ('fillall', num(0))
                else:
                    v = ('cinit',) + tuple(vs)
                keep = {k: x for k, x in s.mem.items() if k == ('arr', ('vdata', loc))}
                self.write(s, loc, v, n.get('l'))
                s.mem.update(keep)
                out.append((s, v))
            return out
        if cls.startswith('std::') or not f.get('src') or cls in self.cfg.time_cls or \
                cls in self.cfg.opaque_cls or (n.get('copy') or n.get('move')) and not self.user_copy(f):
            out = []
            for s, v in self.e_ctor(n, st):
                if not s.out:
                    self.write(s, loc, v, n.get('l'))
                out.append((s, v))
            return out
        fn = self.p.fn.get(f['id'])
        if fn is None:
            out = []
            for s, vs in self.evs(n['args'], st):
                if not s.out:
                    s.mem.setdefault(loc, ('dflt', ts))
                out.append((s, UNDEF))
            return out
        if any(fr.fn == fn['id'] for fr in st.frames):
            return self.unknown(n, st, 'recursive construction')
        out = []
        if loc[0] in ('v', 't') and loc not in st.mem:
            st.mem[loc] = ('dflt', ts)
        for s, v in self.invoke(fn, n, st, ptr, n['args']):
            out.append((s, v))
        return out

    def user_copy(self, f):
        return False

    def e_ctor(self, n, st):
        """constructor expression as a value"""
        f = n['f']
        ts = strip(self.p.t(n['t']))
        cls = f.get('clsb', '')
        if (n.get('copy') or n.get('move')) and len(n['args']) == 1:
            return self.ev(n['args'][0], st)
        if cls in self.cfg.time_cls:
            out = []
            for s, vs in self.evs(n['args'], st):
                out.append((s, ap('time', *vs) if vs else ('dflt', ts)) if not s.out else (s, UNDEF))
            return out
        if ckind(ts):
            t = ('t', 'c%d' % id(n))
            st.n += 1
            t = ('t', st.n)
            return [(s, s.mem.pop(t, UNDEF) if not s.out else UNDEF) for s, v in self.construct(n, st, ('addr', t), t)]
        if ITER.search(cls) and len(n['args']) == 1:
            return self.ev(n['args'][0], st)
        if SP.match(cls):
            if not n['args']:
                return [(st, NULL)]
            return [(s, vs[0] if not s.out else UNDEF) for s, vs in self.evs(n['args'], st)]
        if cls == 'std::pair':
            out = []
            for s, vs in self.evs(n['args'], st):
                if s.out:
                    out.append((s, UNDEF))
                elif len(vs) == 2:
                    out.append((s, struct({'first': vs[0], 'second': vs[1]})))
                elif len(vs) == 1:
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('dflt', ts)))
            return out
        if cls.startswith('std::') or not f.get('src') or cls in self.cfg.opaque_cls:
            out = []
            for s, vs in self.evs(n['args'], st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                if not vs:
                    out.append((s, ('dflt', ts)))
                elif cls.startswith('std::basic_string') or cls == 'std::any' or cls == 'std::function':
                    out.append((s, vs[0] if len(vs) == 1 else ap('str', *[v for v in vs if v[0] != 'dflt'])))
                else:
                    out.append((s, ap('ctor:' + cls, *vs)))
            return out
        st.n += 1
        t = ('t', st.n)
        out = []
        for s, _ in self.construct(n, st, ('addr', t), t):
            if s.out:
                out.append((s, UNDEF))
                continue
            out.append((s, self.read(s, t, ts)))
        return out

    # ------------------------------------------------ calls
    def e_call(self, n, st):
        self.calls_seen += 1
        f = n.get('f')
        if f is None:
            return self.call_value(n, st)
        cls, name = f.get('clsb', ''), f['n']
        if name == '__assert_fail':
            st.out = ('dead',)
            return [(st, UNDEF)]
        h = self.cfg.models.get((cls, name))
        if h is None and not cls:
            h = self.cfg.models.get(('', name))
        if h is not None:
            return h(self, n, st)
        if cls in self.cfg.time_cls:
            return self.time_call(n, st, name)
        if f.get('lambda') and n.get('obj') is not None and not n.get('objptr'):
            r = self.call_named_lambda(n, st)
            if r is not None:
                return r
        if f.get('src') or self.p.fn.get(f.get('id')):
            return self.call_src(n, st, f, cls, name)
        if ('std::' in cls or cls.startswith('__gnu')) or cls.startswith('std'):
            return self.call_std(n, st, f, cls, name)
        if cls == '':
            return self.call_free(n, st, f, name)
        return self.call_opaque(n, st, f, cls, name)

    def objptr(self, n, st):
        """pointer to the object a member call is made on"""
        o = n['obj']
        if n.get('objptr'):
            r = self.ev(o, st)
            if self.cfg.deref:
                for s, v in r:
                    if not s.out:
                        self.cfg.deref(self, s, v, n)
            return r
        if o.get('lv') or o['k'] in ('mat',):
            return [(s, addr_of(l) if not s.out else UNDEF) for s, l in self.lval(o, st)]
        out = []
        for s, v in self.ev(o, st):
            out.append((s, addr_of(self.temp(s, v)) if not s.out else UNDEF))
        return out

    def selfrec(self, fid):
        """calls itself other than through the function under analysis"""
        memo = self.p.__dict__.setdefault('_selfrec', {})
        k = (fid, self.entry)
        if k not in memo:
            seen, todo = set(), list(self.p._calls.get(fid, ()))
            while todo:
                c = todo.pop()
                if c in seen or c == self.entry:
                    continue
                seen.add(c)
                todo += self.p._calls.get(c, ())
            memo[k] = fid in seen
        return memo[k]

    def call_src(self, n, st, f, cls, name):
        fn = self.p.fn.get(f['id'])
        opaque = (cls, name) in self.cfg.opaque or cls in self.cfg.opaque_cls or name in self.cfg.noinline
        virt = f.get('virt') and not n.get('nonvirt')
        if virt and (cls, name) not in self.cfg.inline_virtual:
            opaque = True
        if fn is None or opaque or fn.get('body') is None:
            return self.call_opaque(n, st, f, cls, name)
        comp = self.recset.get(fn['id'])
        if (comp and not (self.entry in comp and fn['id'] != self.entry and not self.selfrec(fn['id']))) or any(fr.fn == fn['id'] for fr in st.frames):
            return self.call_opaque(n, st, f, cls, name, rec=True)
        if n.get('obj') is not None:
            out = []
            for s, p in self.objptr(n, st):
                if s.out:
                    out.append((s, UNDEF))
                else:
                    out += self.invoke(fn, n, s, p, n['args'])
            return out
        return self.invoke(fn, n, st, None, n['args'])

    def bind_args(self, params, nodes, st):
        """evaluates call arguments: [(state, [('val',v)|('loc',l)])]"""
        cur = [(st, [])]
        for i, a in enumerate(nodes):
            ref = params[i].get('ref') if i < len(params) else False
            nxt = []
            for s, vs in cur:
                if s.out:
                    nxt.append((s, vs))
                    continue
                if ref:
                    for s2, l in self.lval(a, s):
                        nxt.append((s2, vs + [('loc', l)]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [('val', v)]))
            cur = nxt
        return cur

    def invoke(self, fn, n, st, this, argnodes):
        out = []
        for s, vs in self.bind_args(fn['params'], argnodes, st):
            if s.out:
                out.append((s, UNDEF))
                continue
            out += self.invoke_v(fn, s, this, vs)
        return out

    def invoke_v(self, fn, s, this, vs, caps=None):
        if len(s.frames) > 24:
            raise TooComplex('call depth')
        self.analysed.add(fn['id'])
        d = s.fr.depth + 1
        saved = s.frames
        s.frames = s.frames + (Frame(fn['id'], this, d, caps),)
        for p, (k, v) in zip(fn['params'], vs):
            s.mem.pop(('ref', p['id'], d), None)
            if k == 'loc':
                s.mem[('ref', p['id'], d)] = v
                ts = self.p.t(p['t'])
                if ckind(ts):
                    self.ctypes.setdefault(v, ts)
            else:
                l = ('v', p['id'], d, p['n'])
                for kk in [kk for kk in s.mem if kk != l and kk[0] != 'ref' and is_sub(kk, l)]:
                    del s.mem[kk]
                s.mem[l] = v
                ts = self.p.t(p['t'])
                if ckind(ts):
                    self.ctypes[l] = ts
        out = []
        for r in self.exec_fn(fn, s):
            r.frames = saved
            v = UNDEF
            if r.out and r.out[0] == 'ret':
                v = r.out[1]
                r.out = None
            for kk in [kk for kk in r.mem if (kk[0] == 'ref' and kk[2] == d) or
                       (kk[0] != 'ref' and root(kk)[0] == 'v' and root(kk)[2] == d)]:
                if not mentions_local(v, d):
                    del r.mem[kk]
            out.append((r, v))
        return out

    def call_named_lambda(self, n, st):
        """a lambda kept in a variable is called: what it captured is known"""
        o = n['obj']
        while o['k'] in ('mat', 'paren', 'cast') and isinstance(o.get('e'), dict):
            o = o['e']
        if o['k'] == 'lambda':
            v = self.e_lambda(o, st)[0][1]
        elif o['k'] == 'var':
            v = self.read(st, self.varloc(st, o['id'], o.get('n', '')))
        else:
            return None
        if v[0] != 'lambda' or v[1] not in self.lambdas:
            return None
        node = self.lambdas[v[1]]
        if node.get('specs') is not None:
            c = [x for x in node['specs'] if x['f'].get('id') == n['f'].get('id')]
            if not c:
                return None
            node = dict(node, f=c[0]['f'], params=c[0]['params'], body=c[0]['body'])
        out = []
        for s, vs in self.bind_args(node['params'], n['args'], st):
            if s.out:
                out.append((s, UNDEF))
            else:
                out += self.call_lambda(s, v, vs, n, True)
        return out

    def call_lambda(self, s, lamv, args, n, bound=False):
        if lamv[0] == 'fnp':
            fn = self.p.fn.get(lamv[1])
            if fn is None:
                return self.unknown(n, s, 'function pointer')
            vs = [self.as_arg(s, a, p) for a, p in zip(args, fn['params'])]
            return self.invoke_v(fn, s, None, vs)
        if lamv[0] != 'lambda':
            return self.unknown(n, s, 'callable')
        node = self.lambdas[lamv[1]]
        if node.get('specs') is not None:
            fid = (n.get('f') or {}).get('id') if isinstance(n, dict) else None
            c = [x for x in node['specs'] if x['f'].get('id') == fid] or node['specs']
            if not c:
                return self.unknown(n, s, 'generic lambda')
            node = dict(node, f=c[0]['f'], params=c[0]['params'], body=c[0]['body'])
        caps = {}
        this = s.fr.this
        for c in lamv[2]:
            if c[0] == 'this':
                this = c[1]
            elif c[0] == 'ref':
                caps[c[1]] = c[2]
            else:
                caps[c[1]] = self.temp(s, c[2])
        fn = dict(id='lambda%s' % node['f'].get('id', lamv[1]), params=node['params'], body=node['body'], rt=node['f'].get('rt'))
        if fn['id'] not in self.p.fn:
            self.p.fn.lam[fn['id']] = fn
        vs = list(args) if bound else [self.as_arg(s, a, p) for a, p in zip(args, node['params'])]
        return self.invoke_v(fn, s, this, vs, caps)

    def as_arg(self, s, a, p):
        if p.get('ref'):
            return ('loc', a[1] if a[0] == 'LOC' else self.temp(s, a))
        return ('val', self.load(s, a[1], self.p.t(p['t'])) if a[0] == 'LOC' else a)

    def call_value(self, n, st):
        c = n.get('callee')
        if c is None:
            return self.unknown(n, st, 'call')
        out = []
        for s, v in self.ev(c, st):
            if s.out:
                out.append((s, UNDEF))
            elif v[0] in ('fnp', 'lambda'):
                for s2, vs in self.evs(n['args'], s):
                    out += self.call_lambda(s2, v, vs, n) if not s2.out else [(s2, UNDEF)]
            else:
                for s2, vs in self.evs(n['args'], s):
                    if s2.out:
                        out.append((s2, UNDEF))
                        continue
                    s2.n += 1
                    r = ('ret', 'indirect', s2.n)
                    s2.ev(Ev('call', name='<indirect>', obj=v, args=tuple(vs), ret=r, line=n.get('l'), fn=s2.fr.fn))
                    out.append((s2, r))
        return out

    # opaque calls -------------------------------------------------
    def call_opaque(self, n, st, f, cls, name, rec=False):
        objs = self.objptr(n, st) if n.get('obj') is not None else [(st, None)]
        out = []
        ptypes = [self.p.t(t) for t in f.get('pt', [])]
        for s, o in objs:
            if s.out:
                out.append((s, UNDEF))
                continue
            cur = [(s, [])]
            for i, a in enumerate(n['args']):
                pt = ptypes[i] if i < len(ptypes) else ''
                nxt = []
                for s1, vs in cur:
                    if s1.out:
                        nxt.append((s1, vs))
                        continue
                    if pt.rstrip().endswith('&'):
                        for s2, l in self.lval(a, s1):
                            if s2.out:
                                nxt.append((s2, vs))
                                continue
                            v = self.load(s2, l, pt.rstrip('& '))
                            nxt.append((s2, vs + [Arg((v, l, None))]))
                    else:
                        for s2, v in self.ev(a, s1):
                            if s2.out:
                                nxt.append((s2, vs))
                                continue
                            c = None
                            if re.match(r'^(const )?(double|bool|int|long|unsigned|float|char)[\w ]*\*', pt) and v != NULL:
                                c = self.content(s2, v)
                            elif pt.endswith('*') and v[0] == 'addr' and islocal(v[1]) :
                                c = self.read(s2, v[1])
                            nxt.append((s2, vs + [Arg((v, None, c))]))
                cur = nxt
            for s2, vs in cur:
                if s2.out:
                    out.append((s2, UNDEF))
                else:
                    out += self.opaque_effect(n, s2, f, cls, name, o, vs, ptypes, rec)
        return out

    def opaque_effect(self, n, s, f, cls, name, o, vs, ptypes, rec):
        pure = name in self.cfg.pure
        key = [x.cont if x.cont is not None else x.val for x in vs]
        if not pure:
            s.n += 1
        tag = () if pure else (('seq', s.n),)
        obj = o if o is not None else NULL
        rt = self.p.t(f.get('rt')) if isinstance(f.get('rt'), int) else ''
        ret = None
        ins = tuple(k for k, t in zip(key, ptypes + [''] * len(key))
                    if not (pure and '*' in t and not t.startswith('const')))
        if strip(rt) != 'void':
            if pure:
                ret = ap('fn:' + name, obj, *ins)
            else:
                ret = ('ret', name, s.n)
        e = Ev('call', name=name, cls=cls, obj=o, args=tuple(vs), ret=ret, line=n.get('l'), x='rec' if rec else None, fn=s.fr.fn)
        s.ev(e)
        if rec:
            self.apply_mods(s, f['id'])
        bk = self.cfg.bumps.get((cls, name))
        if bk:
            s.ep[bk] = self.bump(s.ep.get(bk, 0))
        self.havoc_args(s, name, obj, ins, vs, ptypes, tag)
        return [(s, ret if ret is not None else UNDEF)]

    def modset(self, fid):
        """fields a recursive function may change (its own run plus everything in its cycle)"""
        if fid in self.modsets:
            return self.modsets[fid]
        comp = self.recset.get(fid, {fid})
        if comp & self.inprog:
            return set()
        mods = set()
        self.inprog |= comp
        for g in comp:
            fn = self.p.fn.get(g)
            if fn is None or fn.get('body') is None:
                continue
            e = Engine(self.p, self.cfg)
            e.inprog = self.inprog
            e.modsets = self.modsets
            for s in e.run(fn):
                mods |= {k for k in s.ep if not k.startswith('#m:')}
            self.analysed |= e.analysed
        self.inprog -= comp
        for g in comp:
            self.modsets[g] = mods
        return mods

    def apply_mods(self, s, fid):
        mods = self.modset(fid)
        if not mods:
            return
        s.n += 1
        for k in [k for k in s.mem if k[0] not in ('ref', 'v', 't') and not islocal(k) and fieldkey(k) in mods]:
            s.mem[k] = ('ld', k, ('call', s.n)) if k[0] != 'arr' else ('a0', k[1], ('call', s.n))
        for fk in mods:
            s.ep[fk] = self.bump(s.ep.get(fk, 0))
            if not fk.startswith('#'):
                s.ep['#m:' + fk] = self.bump(s.ep.get('#m:' + fk, 0))

    def havoc_args(self, s, name, obj, ins, vs, ptypes, tag):
        if name in self.cfg.keepargs:
            return
        for i, a in enumerate(vs):
            pt = ptypes[i] if i < len(ptypes) else ''
            if pt.startswith('const ') or not pt:
                continue
            if pt.rstrip().endswith('&') and a.loc is not None:
                v = ap('out:%s:%d' % (name, i), obj, *(ins + tag))
                if ckind(pt):
                    v = ('filled', v)
                if SP.match(strip(pt)):
                    continue
                if islocal(a.loc) or isscalar(pt.rstrip('& ')) or ckind(pt):
                    self.write(s, a.loc, v, None, ev=False)
            elif a.cont is not None and pt.rstrip().endswith('*'):
                v = ap('out:%s:%d' % (name, i), obj, *(ins + tag))
                if a.val[0] == 'addr' and islocal(a.val[1]) and not re.match(r'.*\[\d*\]$', ''):
                    l = a.val[1]
                    if ('arr', a.val) in s.mem:
                        s.mem[('arr', a.val)] = v
                    else:
                        for k in [k for k in s.mem if k != l and k[0] != 'ref' and is_sub(k, l)]:
                            del s.mem[k]
                        s.mem[l] = v
                else:
                    loc, off = self.arrloc(a.val)
                    if loc[1][0] == 'addr' and not off[1:] == () and loc[1][1][0] == 'f' and False:
                        pass
                    if a.val[0] == 'addr':
                        # address of a scalar member
                        self.write(s, a.val[1], v, None, ev=False)
                        s.mem[('arr', a.val)] = v
                    elif off == num(0):
                        s.mem[loc] = v
                    else:
                        s.mem[loc] = ('shifted', s.mem.get(loc, self.initial(s, loc)), off, v)

    def time_call(self, n, st, name):
        """operators of an opaque time type"""
        objs = self.ev(n['obj'], st) if n.get('obj') is not None else [(st, None)]
        out = []
        for s, o in objs:
            if s.out:
                out.append((s, UNDEF))
                continue
            if name == 'operator=':
                for s2, v in self.ev(n['args'][0], s):
                    if s2.out:
                        out.append((s2, UNDEF))
                        continue
                    for s3, l in self.lval(n['obj'], s2):
                        if not s3.out:
                            self.write(s3, l, v, n.get('l'))
                        out.append((s3, ('LOC', l)))
                continue
            for s2, vs in self.evs(n['args'], s):
                if s2.out:
                    out.append((s2, UNDEF))
                    continue
                op = name[8:] if name.startswith('operator') else name
                a = o
                b = vs[0] if vs else None
                if a is None and len(vs) == 2:
                    a, b = vs
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    l = self.cmp_lit(op, a, b, 'T', 'T')
                    out += [(x, TRUE if r else FALSE) for x, r in self.branch(s2, l)]
                elif op == '+':
                    if b == ('c', 'zero'):
                        out.append((s2, a))
                    elif a == ('c', 'zero'):
                        out.append((s2, b))
                    else:
                        out.append((s2, ('tadd', a, b)))
                elif op == '-':
                    out.append((s2, ('tsub', a, b) if b != ('c', 'zero') else a))
                elif op in ('+=', '-='):
                    for s3, l in self.lval(n['obj'], s2):
                        old = self.read(s3, l)
                        self.write(s3, l, ('tadd' if op == '+=' else 'tsub', old, b), n.get('l'))
                        out.append((s3, ('LOC', l)))
                else:
                    out.append((s2, ap('time.' + name, a if a is not None else NULL, *vs)))
        if n.get('lv'):
            return out
        return [(s, (self.read(s, v[1]) if v[0] == 'LOC' else v)) for s, v in out]

    # library calls -------------------------------------------------
    def call_std(self, n, st, f, cls, name):
        rvalue = not n.get('lv')

        def fin(res):
            if not rvalue:
                return res
            return [(s, self.load(s, v[1], self.p.t(n['t'])) if (not s.out and v[0] == 'LOC') else v) for s, v in res]
        obj = n.get('obj')
        if obj is None:
            return fin(self.call_stdfree(n, st, f, name))
        ots = strip(self.p.t(obj['t']))
        if SP.match(cls) or 'shared_ptr' in cls or 'unique_ptr' in cls:
            return fin(self.smart(n, st, f, cls, name))
        if ITER.search(cls):
            return fin(self.iter_op(n, st, name))
        if cls in ('std::list', 'std::set', 'std::map', 'std::vector', 'std::deque', 'std::multiset', 'std::multimap',
                   'std::unordered_set', 'std::unordered_map', 'std::queue', 'std::stack', 'std::priority_queue', 'std::__cxx11::list'):
            out = []
            objs = []
            if n.get('objptr'):
                objs = self.ev(obj, st)
                if self.cfg.deref:
                    for s, v in objs:
                        if not s.out:
                            self.cfg.deref(self, s, v, n)
                objs = [(s, norm_obj(v) if not s.out else UNDEF) for s, v in objs]
            else:
                objs = self.lval(obj, st)
            kd = cls.split('::')[-1]
            cts = ots if ckind(ots) else 'std::%s<>' % kd
            for s, cl in objs:
                if s.out:
                    out.append((s, UNDEF))
                    continue
                cur = [(s, [], [])]
                for a in n['args']:
                    nxt = []
                    for s1, vs, ls in cur:
                        if s1.out:
                            nxt.append((s1, vs, ls))
                            continue
                        if a.get('lv') and ckind(self.p.t(a['t'])) and name in ('swap', 'splice', 'merge'):
                            for s2, l in self.lval(a, s1):
                                nxt.append((s2, vs + [self.read(s2, l) if not s2.out else UNDEF], ls + [l]))
                        elif name in ('swap', 'splice', 'merge') and a['k'] in ('cast',) :
                            for s2, l in self.lval(a, s1):
                                nxt.append((s2, vs + [self.read(s2, l) if not s2.out else UNDEF], ls + [l]))
                        else:
                            for s2, v in self.ev(a, s1):
                                nxt.append((s2, vs + [v], ls + [None]))
                    cur = nxt
                for s1, vs, ls in cur:
                    if s1.out:
                        out.append((s1, UNDEF))
                    else:
                        out += self.cop(s1, n, name, cl, cts, vs, ls)
            return fin(out)
        if name.startswith('operator') and cls in ('std::pair', 'std::any', 'std::__cxx11::basic_string', 'std::basic_string', 'std::function'):
            if name == 'operator=':
                return fin(self.std_assign(n, st))
        if cls == 'std::function' and name == 'operator()':
            pass
        if cls.startswith('std::atomic') or '__atomic' in cls:
            return fin(self.atomic(n, st, name))
        # anything else: pure-looking accessor
        out = []
        for s, o in self.ev(obj, st):
            if s.out:
                out.append((s, UNDEF))
                continue
            for s2, vs in self.evs(n['args'], s):
                out.append((s2, ap('std:' + name, o, *vs)) if not s2.out else (s2, UNDEF))
        return out

    def std_assign(self, n, st):
        out = []
        for s, v in self.ev(n['args'][0], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            for s2, l in self.lval(n['obj'], s):
                if not s2.out:
                    self.write(s2, l, v, n.get('l'))
                out.append((s2, ('LOC', l)))
        return out

    def atomic(self, n, st, name):
        out = []
        for s, l in self.lval(n['obj'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            for s2, vs in self.evs(n['args'], s):
                if s2.out:
                    out.append((s2, UNDEF))
                    continue
                old = self.read(s2, l)
                if name in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
                    dlt = vs[0] if vs and name not in ('operator++', 'operator--') else num(1)
                    if '-' in name or 'sub' in name:
                        dlt = neg(dlt)
                    post = name.startswith('fetch') or (name in ('operator++', 'operator--') and vs)
                    new = add(old, dlt)
                    s2.ev(Ev('rmw', name=name, obj=l, args=(old, new), line=n.get('l'), fn=s2.fr.fn))
                    self.write(s2, l, new, n.get('l'))
                    out.append((s2, old if post else new))
                elif name in ('load',) or name.startswith('operator '):
                    s2.ev(Ev('aload', name=name, obj=l, args=(old,), line=n.get('l'), fn=s2.fr.fn))
                    out.append((s2, old))
                elif name in ('store', 'operator='):
                    s2.ev(Ev('astore', name=name, obj=l, args=tuple(vs), line=n.get('l'), fn=s2.fr.fn))
                    self.write(s2, l, vs[0], n.get('l'))
                    out.append((s2, vs[0]))
                else:
                    out += self.unknown(n, s2, 'atomic ' + name)
        return out

    def smart(self, n, st, f, cls, name):
        obj = n['obj']
        out = []
        if name in ('get', 'operator->', 'operator*', 'operator bool', 'use_count', 'unique', 'owner_before'):
            for s, v in self.ev(obj, st):
                if s.out:
                    out.append((s, UNDEF))
                elif name in ('get', 'operator->'):
                    out.append((s, v))
                elif name == 'operator*':
                    out.append((s, ('LOC', norm_obj(v))))
                elif name == 'operator bool':
                    out += [(x, TRUE if b else FALSE) for x, b in self.branch(s, lnot(lit_eq(v, NULL)))]
                else:
                    s.n += 1
                    out.append((s, ('ret', name, s.n)))
            return out
        if name == 'operator[]':
            for s, v in self.ev(obj, st):
                for s2, vs in self.evs(n['args'], s):
                    out.append((s2, ('LOC', self.elemloc(v, vs[0]))) if not s2.out else (s2, UNDEF))
            return out
        if name in ('operator=', 'reset', 'swap', 'release'):
            if name == 'swap':
                return self.unknown(n, st, 'shared_ptr swap')
            for s, l in self.lval(obj, st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                for s2, vs in self.evs(n['args'], s):
                    if s2.out:
                        out.append((s2, UNDEF))
                        continue
                    old = self.read(s2, l)
                    self.write(s2, l, vs[0] if vs else NULL, n.get('l'))
                    out.append((s2, ('LOC', l) if name == 'operator=' else old if name == 'release' else UNDEF))
            return out
        return self.unknown(n, st, 'smart pointer ' + name)

    def iter_op(self, n, st, name):
        out = []
        obj = n['obj']
        if name in ('operator*', 'operator->'):
            for s, v in self.ev(obj, st):
                if s.out:
                    out.append((s, UNDEF))
                elif isiter(v):
                    self.note_end(s, v, n.get('l'))
                    l = self.deref(s, v)
                    out.append((s, ('LOC', l) if name == 'operator*' else addr_of(l)))
                else:
                    s.imp = s.imp + ('dereference of an unknown iterator at %s' % self.p.where(n.get('l')),)
                    out.append((s, ('LOC', ('obj', v)) if name == 'operator*' else v))
            return out
        if name in ('operator++', 'operator--'):
            for s, l in self.lval(obj, st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                old = self.read(s, l)
                if isiter(old):
                    new = ('it', old[1], ('next' if name == 'operator++' else 'prev', old[2]))
                    if new[2][0] == 'prev' and old[2] == END:
                        new = ('it', old[1], ('last',))
                else:
                    s.n += 1
                    new = ('unk', 'iter', s.n)
                self.write(s, l, new, n.get('l'))
                out.append((s, old if n['args'] else ('LOC', l)))
            return out
        if name == 'operator=':
            return self.std_assign(n, st)
        if name in ('operator==', 'operator!='):
            for s, a in self.ev(obj, st):
                for s2, vs in (self.evs(n['args'], s) if not s.out else [(s, [])]):
                    if s2.out:
                        out.append((s2, UNDEF))
                    else:
                        out += self.binop(s2, name[8:], a, vs[0], 'it', 'it', 'bool')
            return out
        if name in ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]', 'base'):
            for s, a in self.ev(obj, st):
                for s2, vs in (self.evs(n['args'], s) if not s.out else [(s, [])]):
                    if s2.out:
                        out.append((s2, UNDEF))
                    elif isiter(a) and name == 'operator+' and vs[0] == num(1):
                        out.append((s2, ('it', a[1], ('next', a[2]))))
                    elif isiter(a) and a[2][0] == 'begin' and name == 'operator+':
                        out.append((s2, ('it', a[1], ('idx', vs[0]))))
                    else:
                        out += self.unknown(n, s2, 'iterator ' + name)
            return out
        return self.unknown(n, st, 'iterator ' + name)

    def call_free(self, n, st, f, name):
        return self.call_stdfree(n, st, f, name)

    def call_stdfree(self, n, st, f, name):
        args = n['args']
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            out = []
            ta, tb = self.p.t(args[0]['t']), self.p.t(args[1]['t'])
            for s, vs in self.evs(args, st):
                out += self.binop(s, name[8:], vs[0], vs[1], ta if not ckind(ta) else 'c', tb, 'bool') if not s.out else [(s, UNDEF)]
            return out
        if name in ('move', 'forward', 'as_const', 'ref', 'cref', '__addressof', 'addressof') and len(args) == 1:
            return [(s, (('LOC', l) if n.get('lv') or True else l) if not s.out else UNDEF) for s, l in self.lval(args[0], st)] \
                if name not in ('addressof', '__addressof') else \
                [(s, addr_of(l) if not s.out else UNDEF) for s, l in self.lval(args[0], st)]
        if name in ('make_pair',):
            return [(s, struct({'first': vs[0], 'second': vs[1]}) if not s.out else UNDEF) for s, vs in self.evs(args, st)]
        if name in ('make_shared', 'make_unique'):
            out = []
            for s, vs in self.evs(args, st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                s.n += 1
                ptr = ('new', 'mk%s' % (n.get('l', [0, 0])[1],), s.n)
                s.ev(Ev('new', name=self.p.t(n['t']), args=tuple(vs), ret=ptr, line=n.get('l'), x='shared', fn=s.fr.fn))
                out.append((s, ptr))
            return out
        if name in ('static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'):
            return self.ev(args[0], st)
        if name == 'dynamic_pointer_cast':
            out = []
            m = re.search(r'<(.*)>$', strip(self.p.t(n['t'])))
            tgt = re.sub(r'<.*', '', m.group(1) if m else '?')
            for s, v in self.ev(args[0], st):
                out += self.isa(s, v, tgt) if not s.out else [(s, UNDEF)]
            return out
        if name in ('max', 'min', 'fmax', 'fmin') and len(args) == 2:
            out = []
            k = 'max' if 'max' in name else 'min'
            for s, vs in self.evs(args, st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                a, b = vs
                if isnum(a) and isnum(b):
                    out.append((s, a if (a[1] >= b[1]) == (k == 'max') else b))
                elif a == b:
                    out.append((s, a))
                else:
                    out.append((s, ap(k, *sorted((a, b), key=repr))))
            return out
        if name in ('fabs', 'abs'):
            out = []
            for s, vs in self.evs(args, st):
                if s.out:
                    out.append((s, UNDEF))
                    continue
                v = vs[0]
                if isnum(v):
                    out.append((s, ('num', abs(v[1]))))
                else:
                    p = to_poly(v)
                    if T._lead(p) is not None and T._lead(p) < 0:
                        v = neg(v)
                    out.append((s, ap('abs', v)))
            return out
        if name in ('sqrt', 'pow', 'ldexp', 'frexp', 'exp', 'log', 'log2', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'ilogb', 'scalbn', 'signbit', 'copysign'):
            if name == 'frexp':
                return self.call_opaque(n, st, f, '', name)
            out = []
            for s, vs in self.evs(args, st):
                if s.out:
                    out.append((s, UNDEF))
                elif name == 'pow' and isnum(vs[1]) and vs[1][1].denominator == 1 and 0 <= vs[1][1] <= 8:
                    r = num(1)
                    for _ in range(int(vs[1][1])):
                        r = mul(r, vs[0])
                    out.append((s, r))
                else:
                    out.append((s, ap(name, *vs)))
            return out
        if name in ('get',) and len(args) == 1:
            m = re.search(r'get<(\d+)', f.get('q', '')) or None
            idx = None
            for t in f.get('targs') or []:
                if str(t).isdigit():
                    idx = int(t)
                    break
            if m:
                idx = int(m.group(1))
            out = []
            for s, l in self.lval(args[0], st):
                fld = ('first', 'second')[idx] if idx in (0, 1) else '[%s]' % idx
                out.append((s, ('LOC', self.fieldloc(s, addr_of(l), {'f': fld})) if not s.out else UNDEF))
            return out
        if name in ('memcpy', 'memmove', 'copy', 'copy_n', 'fill', 'fill_n', 'memset', '__builtin_memcpy'):
            return self.bulk(n, st, name)
        if name in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find', 'count_if', 'find_if_not', 'remove_if', 'remove', 'transform', 'back_inserter', 'inserter', 'copy_if', 'accumulate', 'max_element', 'min_element', 'count'):
            return self.algo(n, st, name)
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
            t0 = self.p.t(args[0]['t'])
            if ckind(t0):
                out = []
                for s, l in self.lval(args[0], st):
                    out += self.cop(s, n, name, l, t0, [], []) if not s.out else [(s, UNDEF)]
                return out
        if name in ('next', 'prev') and len(args) >= 1:
            out = []
            for s, vs in self.evs(args, st):
                if s.out:
                    out.append((s, UNDEF))
                elif isiter(vs[0]) and (len(vs) == 1 or vs[1] == num(1)):
                    if name == 'prev' and vs[0][2] == END:
                        out.append((s, ('it', vs[0][1], ('last',))))
                    else:
                        out.append((s, ('it', vs[0][1], (name, vs[0][2]))))
                else:
                    out += self.unknown(n, s, name)
            return out
        if name == 'exchange' and len(args) == 2:
            out = []
            for s, l in self.lval(args[0], st):
                for s2, v in (self.ev(args[1], s) if not s.out else [(s, UNDEF)]):
                    if s2.out:
                        out.append((s2, UNDEF))
                        continue
                    ts = self.p.t(args[0]['t'])
                    old = self.load(s2, l, ts)
                    self.store(s2, l, v, ts, n.get('l'))
                    out.append((s2, old))
            return out
        if name == 'swap' and len(args) == 2:
            out = []
            for s, l in self.lval(args[0], st):
                for s2, l2 in (self.lval(args[1], s) if not s.out else [(s, UNDEF)]):
                    if s2.out:
                        out.append((s2, UNDEF))
                        continue
                    ts = self.p.t(args[0]['t'])
                    a, b = self.load(s2, l, ts), self.load(s2, l2, ts)
                    if ckind(ts):
                        for ll, vv in ((l, b), (l2, a)):
                            if not islocal(ll):
                                s2.ev(Ev('mut', name='assign', obj=ll, args=(vv,), line=n.get('l'), fn=s2.fr.fn))
                            self.write(s2, ll, vv, n.get('l'), ev=False)
                    else:
                        self.store(s2, l, b, ts, n.get('l'))
                        self.store(s2, l2, a, ts, n.get('l'))
                    out.append((s2, UNDEF))
            return out
        if name in ('infinity', 'max', 'min', 'lowest', 'epsilon', 'quiet_NaN') and not args:
            return [(st, ('c', 'lim:%s:%s' % (name, strip(self.p.t(n['t'])))))]
        return self.call_opaque(n, st, f, f.get('clsb', ''), name)

    def iter_range(self, s, a, b):
        return isiter(a) and isiter(b) and a[1] == b[1] and a[2][0] == 'begin' and b[2] == END

    def algo(self, n, st, name):
        args = n['args']
        if name in ('back_inserter', 'inserter'):
            return [(s, ('backins', l) if not s.out else UNDEF) for s, l in self.lval(args[0], st)]
        out = []
        for s, vs in self.evs(args, st):
            if s.out:
                out.append((s, UNDEF))
                continue
            a, b = vs[0], vs[1]
            if not self.iter_range(s, a, b):
                # pointer ranges and partial ranges are not summarised
                s.imp = s.imp + ('%s over a partial range at %s' % (name, self.p.where(n.get('l'))),)
                s.n += 1
                out.append((s, ('unk', name, s.n)))
                continue
            c = a[1]
            L = self.loop_id(s, n)
            pred = vs[2] if len(vs) > 2 else None

            def run(H, pred=pred, c=c, L=L, vs=vs):
                res = []
                for h, more in self.branch(H, (('more', L), True)):
                    if not more:
                        h.out = ('normal',)
                        res.append(h)
                        continue
                    loc = ('ce', c, ('cur', L))
                    if name in ('find', 'count', 'remove'):
                        v0 = self.read(h, loc)
                        rs = [(x, TRUE if r else FALSE) for x, r in self.branch(h, self.cmp_lit('==', v0, pred, 'T', 'T'))]
                    else:
                        fnv = vs[-1]
                        rs = self.call_lambda(h, fnv, [('LOC', loc)], n)
                    for h2, v in rs:
                        if h2.out:
                            res.append(h2)
                            continue
                        if name == 'for_each':
                            res.append(h2)
                            continue
                        if name == 'transform':
                            self.out_push(h2, vs[2], v)
                            res.append(h2)
                            continue
                        for h3, r in self.branch_v(h2, v, 'bool'):
                            stop = (name in ('any_of', 'none_of', 'find_if', 'find') and r) or \
                                   (name in ('all_of', 'find_if_not') and not r)
                            if stop:
                                h3.out = ('algo-stop',)
                            elif r and name == 'copy_if':
                                self.out_push(h3, vs[2], self.read(h3, loc))
                            elif r and name in ('remove_if', 'remove'):
                                h3.mem[('v', 'rm', L, 'removed')] = TRUE
                            res.append(h3)
                return res
            for x in self.loop(s, n, run, kind='each', cloc=c, L=L):
                if x.out == ('algo-stop',):
                    x.out = None
                    if name in ('find', 'find_if', 'find_if_not'):
                        out.append((x, ('it', c, ('cur', L))))
                        x.facts[('done', L)] = False
                    else:
                        out.append((x, TRUE if name == 'any_of' else FALSE))
                elif x.out:
                    out.append((x, UNDEF))
                elif name in ('find', 'find_if', 'find_if_not'):
                    out.append((x, ('it', c, END)))
                elif name in ('any_of', 'none_of', 'all_of'):
                    out.append((x, FALSE if name == 'any_of' else TRUE))
                elif name in ('remove_if', 'remove'):
                    out.append((x, ('it', c, ('removed', ('loop', L)))))
                elif name in ('count_if', 'count', 'accumulate', 'max_element', 'min_element'):
                    x.n += 1
                    x.imp = x.imp + (name,)
                    out.append((x, ('unk', name, x.n)))
                else:
                    out.append((x, UNDEF))
        return out

    def out_push(self, s, dst, v):
        if dst[0] == 'backins':
            C = self.read(s, dst[1])
            if C[0] in ('undef', 'dflt'):
                C = EMPTY
            if not islocal(dst[1]):
                s.ev(Ev('mut', name='push', obj=dst[1], args=(v,), fn=s.fr.fn, x=C))
            kd = ckind(self.ctypes.get(dst[1], ''))
            self.write(s, dst[1], ('ins', C, v) if kd in ('set',) else ('push', C, v, 'b'), None, ev=False)
        else:
            s.imp = s.imp + ('output iterator',)

    def bulk(self, n, st, name):
        out = []
        for s, vs in self.evs(n['args'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            if name in ('memcpy', 'memmove', '__builtin_memcpy'):
                dst, src, ln = vs
                rng = (num(0), self.unsize(ln, n['args'][0]))
            elif name == 'copy':
                a, b, dst = vs
                if self.iter_range(s, a, b) and dst[0] == 'backins':
                    C = self.read(s, a[1])
                    D = self.read(s, dst[1])
                    if D[0] in ('undef', 'dflt'):
                        D = EMPTY
                    if not islocal(dst[1]):
                        s.ev(Ev('mut', name='insrange', obj=dst[1], args=(C,), line=n.get('l'), fn=s.fr.fn, x=D))
                    self.write(s, dst[1], ('app', C, D) if D != EMPTY else C, n.get('l'), ev=False)
                    out.append((s, dst))
                    continue
                src = a
                base = (a[1], a[2]) if a[0] == 'padd' else (a, num(0))
                be = (b[1], b[2]) if b[0] == 'padd' else (b, num(0))
                if base[0] != be[0]:
                    out += self.unknown(n, s, 'copy')
                    continue
                rng = (num(0), sub(be[1], base[1]))
            elif name == 'copy_n':
                src, ln, dst = vs
                rng = (num(0), ln)
            elif name == 'memset':
                dst, val, ln = vs
                rng = (num(0), self.unsize(ln, n['args'][0]))
                src = None
            elif name == 'fill_n':
                dst, ln, val = vs
                rng = (num(0), ln)
                src = None
            else:
                dst, e, val = vs
                be = (e[1], e[2]) if e[0] == 'padd' else (e, num(0))
                base = (dst[1], dst[2]) if dst[0] == 'padd' else (dst, num(0))
                if base[0] != be[0] or isiter(dst):
                    out += self.unknown(n, s, 'fill')
                    continue
                rng = (num(0), sub(be[1], base[1]))
                src = None
            dl, doff = self.arrloc(dst)
            old = s.mem.get(dl) or self.initial(s, dl)
            if src is not None:
                c = self.content(s, src)
                body = elt(c, BIND, rng)
            else:
                body = val
                if isbool_content(old):
                    body = FALSE if val == num(0) else val
            if doff == num(0):
                s.mem[dl] = ap('lam', rng[0], rng[1], body, old)
            else:
                s.mem[dl] = ('afin', 'bulk', dl[1])
                s.imp = s.imp + ('%s with an offset' % name,)
            s.ev(Ev('bulk', name=name, obj=dl, args=(rng[1], body), line=n.get('l'), fn=s.fr.fn))
            out.append((s, dst))
        return out

    def unsize(self, ln, dst=None):
        p = to_poly(ln)
        for m in list(p):
            for a, e in m:
                if a[0] == 'c' and a[1].startswith('sizeof('):
                    return div(ln, a)
        # a number of bytes
        while dst and dst.get('k') in ('cast', 'paren') and dst.get('e'):
            dst = dst['e']
        ts = strip(self.p.t(dst.get('t'))) if dst else ''
        el = ts.rstrip('* ').replace('const', '').strip() if ts.count('*') == 1 else ts.split('[')[0].strip()
        if el in ('double', 'long', 'unsigned long') or ts.count('*') > 1:
            return scale(ln, Fraction(1, 8))
        if el in ('float', 'int', 'unsigned int'):
            return scale(ln, Fraction(1, 4))
        return ln


def recursive_functions(prog):
    """{function id: ids of its call cycle} for every function that may call itself"""
    if hasattr(prog, '_rec'):
        return prog._rec
    calls = {}

    def w(x, acc):
        if isinstance(x, dict):
            if x.get('k') in ('call', 'ctor') and isinstance(x.get('f'), dict) and 'id' in x['f']:
                acc.add(x['f']['id'])
            for v in x.values():
                w(v, acc)
        elif isinstance(x, list):
            for v in x:
                w(v, acc)
    for i, f in prog.fn.items():
        acc = set()
        w(f.get('body'), acc)
        w(f.get('inits'), acc)
        calls[i] = acc
    reach = {}
    for i in calls:
        seen, todo = set(), list(calls[i])
        while todo:
            c = todo.pop()
            if c in seen or c not in calls:
                continue
            seen.add(c)
            todo += calls[c]
        reach[i] = seen
    prog._calls = calls
    prog._rec = {i: {j for j in reach[i] if i in reach.get(j, ())} for i in calls if i in reach[i]}
    return prog._rec


def isbool_content(c):
    return False


def per_iter(x, L):
    if x[0] in ('elem', 'ix', 'ekey'):
        return x[1] == L or (isinstance(x[1], str) and x[1].startswith(L + '/'))
    return x[0] == 'cur' and isinstance(x[1], str) and x[1].startswith(L)


def known_before(x, st):
    return False if x[0] in ('ret', 'new') and len(x) > 2 and isinstance(x[2], int) and x[2] > st.n else True


def delta_facts(b, H):
    return {a: v for a, v in b.facts.items() if H.facts.get(a) != v}


def tuple_facts(fs):
    return ('facts', tuple(sorted(((a, v) for a, v in fs.items() if a[0] not in ('more', 'done')), key=repr)))


def mentions_local(v, d):
    if not isinstance(v, tuple):
        return False
    return contains(v, lambda x: x[0] == 'v' and len(x) > 2 and x[2] == d)


def has_goto(stmts, name):
    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'goto' and x.get('n') == name:
                return True
            return any(w(v) for v in x.values())
        if isinstance(x, list):
            return any(w(v) for v in x)
        return False
    return w(stmts)


def split_targs(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def eta(fs):
    """{f: x.f for every field f} is x"""
    bases = set()
    for f, v in fs.items():
        if v[0] == 'get' and v[2] == f:
            bases.add(v[1])
        elif v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == f and v[1][1][0] == 'addr':
            bases.add(('ld', v[1][1][1], v[2]))
        elif v[0] == 'dfltf' and v[2] == f:
            bases.add(('dflt', v[1]))
        else:
            return struct(fs)
    if len(bases) == 1:
        return bases.pop()
    return struct(fs)


def find_var(x, prefix):
    if isinstance(x, dict):
        if x.get('k') == 'var' and x.get('n', '').startswith(prefix):
            return (x['id'], x['n'])
        for v in x.values():
            r = find_var(v, prefix)
            if r:
                return r
    elif isinstance(x, list):
        for v in x:
            r = find_var(v, prefix)
            if r:
                return r
    return None
