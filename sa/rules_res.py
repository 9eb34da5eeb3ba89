"""R01: ownership.

An ownership analysis.  Every constructor is followed along every path that returns; what it acquired (storage, solver
objects, library handles) and where that rests is handed to the destructor and to those of the bases, and each
resource has to be released there exactly once by the matching operation.  Member functions that acquire, release or
replace what is owned are followed the same way, with the destructor run on the state they leave behind.
"""
from rules_num import *
from rules_hyb import TH
import adevs_models as M

# calls that acquire: name -> [(kind, where the handle is: 'ret', argument index or ('*', argument index))]
ACQ = {
    'N_VNew_Serial': [('vector', 'ret')], 'N_VClone': [('vector', 'ret')], 'N_VMake_Serial': [('vector', 'ret')],
    'N_VNewEmpty_Serial': [('vector', 'ret')], 'N_VCloneEmpty': [('vector', 'ret')], 'N_VNewEmpty': [('vector', 'ret')],
    'SUNDenseMatrix': [('matrix', 'ret')], 'SUNMatClone': [('matrix', 'ret')], 'SUNBandMatrix': [('matrix', 'ret')],
    'SUNLinSol_Dense': [('linear solver', 'ret')], 'SUNLinSol_Band': [('linear solver', 'ret')],
    'KINCreate': [('KINSOL memory', 'ret')], 'CVodeCreate': [('CVODE memory', 'ret')],
    'SUNContext_Create': [('SUNDIALS context', ('*', 1))],
    'fmi_import_allocate_context': [('import context', 'ret')],
    'fmi_import_mk_temp_dir': [('directory', 'ret'), ('block', 'ret')],
    'fmi2_import_parse_xml': [('unit', 'ret')],
    'fmi2_import_create_dllfmu': [('library', 0)],
    'fmi2_import_instantiate': [('instance', 0)],
    'fmi2_import_get_variable_list': [('variable list', 'ret')],
    'malloc': [('block', 'ret')], 'calloc': [('block', 'ret')], 'strdup': [('block', 'ret')],
}
# calls that release: name -> [(kind, where)]
REL = {
    'N_VDestroy': ('vector', 0), 'N_VDestroy_Serial': ('vector', 0), 'N_VFreeEmpty': ('vector', 0),
    'SUNMatDestroy': ('matrix', 0), 'SUNMatDestroy_Dense': ('matrix', 0),
    'SUNLinSolFree': ('linear solver', 0), 'SUNLinSolFree_Dense': ('linear solver', 0),
    'KINFree': ('KINSOL memory', ('*', 0)), 'CVodeFree': ('CVODE memory', ('*', 0)),
    'SUNContext_Free': ('SUNDIALS context', ('*', 0)),
    'fmi_import_free_context': ('import context', 0),
    'fmi_import_rmdir': ('directory', 1),
    'fmi2_import_free': ('unit', 0), 'fmi2_import_destroy_dllfmu': ('library', 0), 'fmi2_import_free_instance': ('instance', 0),
    'fmi2_import_free_variable_list': ('variable list', 0),
    'free': ('block', 0),
}
SUN = ('vector', 'matrix', 'linear solver', 'KINSOL memory', 'CVODE memory')
# kind -> kinds that must still exist when it is released
NEEDS = {k: ('SUNDIALS context',) for k in SUN}
NEEDS.update({'instance': ('library', 'unit'), 'library': ('unit',)})
# what a class documents as its own once it is handed over: parameter positions of the constructor
ADOPTS = {'adevs::Hybrid': (0, 1, 2), 'adevs::ExplicitHybrid': (0,), 'adevs::ImplicitHybrid': (0,)}
LIMIT = 64


def rcall(name):
    def h(eng, n, st):
        out = []
        for s, vs in eng.evs(n['args'], st):
            if s.out:
                out.append((s, UNDEF))
                continue
            s.n += 1
            k = s.n
            r = ('ret', name, k)
            x = {'args': tuple(vs), 'deref': {}, 'ret': r}
            for kind, w in ACQ.get(name, []):
                if isinstance(w, tuple):
                    v = ('ret', kind, k)
                    p = vs[w[1]]
                    if p[0] == 'addr':
                        eng.write(s, p[1], v, None, ev=False)
                    x['deref'][w[1]] = v
            if name in REL and isinstance(REL[name][1], tuple):
                i = REL[name][1][1]
                p = vs[i]
                x['deref'][i] = eng.read(s, p[1]) if p[0] == 'addr' else ('unk', k)
            s.ev(Ev('call', name=name, cls='', obj=None, args=tuple(vs), ret=r, line=n.get('l'), fn=s.fr.fn, x=x))
            out.append((s, r))
        return out
    return h


def rescfg(tu):
    def make():
        c = M.solver() if tu == 'solvers' else M.plain()
        c.poison = True
        for k in list(ACQ) + list(REL):
            c.models[('', k)] = rcall(k)
        return c
    return make


def place(e, w):
    if w == 'ret':
        return e.ret
    if isinstance(w, tuple):
        return e.x['deref'].get(w[1])
    return e.x['args'][w] if w < len(e.x['args']) else None


class Item:
    """an acquisition or a release: kind, handle, the iterations it happens in"""
    def __init__(self, kind, v, e, chain, typ='', many=()):
        self.kind, self.v, self.e, self.chain, self.typ, self.many = kind, v, e, chain, typ, many


def rng(L):
    if L.partial or L.range is None or not L.regular or len(L.paths) != 1 or L.exits:
        return None
    return tuple(norm(x) for x in L.range)


def items(trace):
    """acquisitions and releases in order; None as range marks iterations that are not understood"""
    out = []
    for e, facts, chain, i, tr in walk(trace):
        c = tuple((L.id, rng(L)) for L, _ in chain)
        if e.k == 'new':
            if e.x != 'shared':
                out.append(('acq', Item('array' if e.x else 'object', e.ret, e, c, e.name)))
        elif e.k == 'delete':
            out.append(('rel', Item('array' if e.x else 'object', norm(e.args[0]), e, c, e.name)))
        elif e.k == 'call' and isinstance(e.x, dict) and 'deref' in e.x:
            for kind, w in ACQ.get(e.name, []):
                out.append(('acq', Item(kind, norm(place(e, w)), e, c)))
            if e.name in REL:
                kind, w = REL[e.name]
                out.append(('rel', Item(kind, norm(place(e, w)), e, c)))
    return out


def root(loc):
    """the object a location is part of"""
    while loc and loc[0] in ('f', 'el'):
        loc = loc[1]
        if loc and loc[0] == 'addr':
            loc = loc[1]
    return loc


def outer(loc):
    """the field of this that a location is part of"""
    last = None
    while loc and loc[0] in ('f', 'el', 'addr', 'arr'):
        if loc[0] == 'f' and loc[1] == TH:
            last = loc[2]
        loc = loc[1]
    return last


def beyond(h):
    """an entry past the constant range in which an array of acquired things is set"""
    if h[0] != 'elt' or not isnum(h[2]) or not (h[1][0] == 'ap' and h[1][1] == 'lam'):
        return False
    s, e, body = ap_payload(h[1])[:3]
    return isnum(s) and isnum(e) and contains(body, lambda y: y[0] == 'ap' and y[1] == 'res') and not s[1] <= h[2][1] < e[1]


def constrange(r):
    if r is None:
        return None
    a, b = isnumv(r[0]), isnumv(r[1])
    if a is None or b is None or b - a > LIMIT:
        return None
    return range(a, b)


def isnumv(t):
    p = to_poly(t)
    if any(m != () for m in p):
        return None
    c = p.get((), Fraction(0))
    return int(c) if c.denominator == 1 else None


def isnull(st, v):
    if v == NULL:
        return True
    l = lit_eq(v, NULL)
    if isinstance(l, bool):
        return l
    d = decide(st.facts, l)
    if d is None:
        for a, sg in st.facts.items():
            if a[0] == 'eq' and norm(a) == l[0]:
                return sg == l[1]
    return d


class Owner:
    """one class: its constructors, its destructors"""
    def __init__(self, R, r):
        self.R, self.r = R, r
        self.b, self.n = r['b'], r['n']
        self.p = R.p
        self.types = {}
        for rr in R.lineage(r):
            for f in rr['f']:
                self.types.setdefault(f['n'], self.p.t(f['t']))
        self.ctors = [f for f in R.fns(r['n']) if f.get('isctor') and not f.get('del') and f.get('body') is not None and not self.copyish(f)]
        self.dtors = [f for rr in R.lineage(r) for f in R.fns(rr['n']) if f.get('isdtor') and f.get('body') is not None]

    def copyish(self, f):
        return len(f['params']) == 1 and self.n in self.p.t(f['params'][0]['t']) and '&' in self.p.t(f['params'][0]['t'])

    def smart(self, field):
        t = self.types.get(field, '')
        return t if '_ptr<' in t else None

    # ---------------------------------------------- running
    def destroy(self, st):
        """the states after the destructors ran on what st left; trace is theirs alone"""
        states = [st]
        first = True
        for d in self.dtors:
            nxt = []
            for s in states:
                def pre(eng, s2, s=s, first=first):
                    s2.mem.update({k: v for k, v in s.mem.items() if k[0] not in ('ref', 'v', 't')})
                    s2.facts.update(s.facts)
                    s2.ep = dict(s.ep)
                    s2.n = s.n
                    s2.trace = () if first else s.trace
                eng = Engine(self.p, rescfg(self.R.tu)())
                for s3 in eng.run(d, pre=pre):
                    if s3.out is None or s3.out[0] == 'ret':
                        s3.out = None
                        nxt.append(s3)
            states = nxt
            first = False
        if first:
            st = st.copy()
            st.trace = ()
            return [st]
        return states


class Res:
    def __init__(self, cx, rep, tu, done):
        self.cx, self.rep, self.tu, self.done = cx, rep, tu, done
        self.p = cx.prog(tu)
        self.by = {}
        for f in self.p.fn.values():
            self.by.setdefault(f.get('cls', ''), []).append(f)
            if f['n'] == f.get('clsb', '').split('::')[-1] and f.get('cls'):
                f['isctor'] = True

    def fns(self, cls):
        return self.by.get(cls, [])

    def lineage(self, r):
        out = [r]
        for b in r['bases']:
            if b in self.p.records:
                out += self.lineage(self.p.records[b])
        return out

    def derived(self, n):
        return [r for r in self.p.records.values() if n in r['bases']]

    # ---------------------------------------------- prefilter
    def calls(self, f):
        """names of what the body acquires or releases"""
        out = set()

        def go(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('new', 'delete'):
                    out.add(k)
                n = x.get('n')
                if isinstance(n, str) and (n in ACQ or n in REL):
                    out.add(n)
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(f.get('body'))
        go(f.get('inits'))
        return out

    def assigns(self, f, owned):
        hit = []

        def lhs(x):
            while isinstance(x, dict) and x.get('k') in ('load', 'cast', 'paren', 'idx', 'sub', 'index', 'un'):
                x = x.get('e') or x.get('a') or x.get('b')
            return x.get('f') if isinstance(x, dict) and x.get('k') == 'mem' else None

        def go(x):
            if isinstance(x, dict):
                if x.get('k') in ('assign', 'asg') or (x.get('k') == 'bin' and x.get('op') == '='):
                    l = x.get('a') or x.get('lhs') or x.get('l')
                    if isinstance(l, dict) and l.get('k') == 'mem' and l.get('f') in owned:
                        hit.append(l['f'])
                if x.get('k') in ('call', 'mcall', 'stdcall') or 'args' in x:
                    for a in x.get('args') or []:
                        if isinstance(a, dict) and a.get('k') == 'mem' and a.get('lv') and a.get('f') in owned:
                            hit.append(a['f'])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(f.get('body'))
        return hit

    # ---------------------------------------------- one class
    def run(self):
        for r in sorted(self.p.records.values(), key=lambda r: (r['l'], r['n'])):
            if r['b'] in self.done or not self.interesting(r):
                continue
            self.done.add(r['b'])
            try:
                self.cls(r)
            except Undecided as e:
                self.rep.und(r['b'], str(e))
            except (Unsupported, TooComplex, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                self.rep.und(r['b'], 'cannot be analysed: %s %s' % (type(e).__name__, str(e)[:160]))

    def interesting(self, r):
        for rr in self.lineage(r):
            for f in self.fns(rr['n']):
                if self.calls(f):
                    return True
        return False

    def cls(self, r):
        o = Owner(self, r)
        short = r['b'].replace('adevs::', '')
        owned = set()
        for c in o.ctors:
            sm = self.cx.summary(self.tu, c, 'res', cfg=rescfg(self.tu)()).use(self.rep)
            adopt = [('p', c['params'][i]['n'] or 'arg%d' % i, i) for i in ADOPTS.get(r['b'], ()) if i < len(c['params'])]
            sts = sm.normal()
            if not sts:
                self.rep.und('%s:ctor' % short, 'no path of the constructor returns')
            for st in sts:
                owned |= self.lifetime(o, short, c, sm, st, adopt)
        if not o.ctors:
            owned |= self.lifetime(o, short, None, None, State(), [])
        for fin in o.destroy(State()):
            for k, x in items(fin.trace):
                if k == 'rel' and x.v[0] == 'ld' and outer(x.v[1]):
                    owned.add(outer(x.v[1]))
        for d in o.dtors:
            self.rep.functions[d['q'] + '()'] = {'at': self.p.where(d['l']), 'paths': 1, 'events': 0, 'imprecision': []}
        if owned:
            self.copies(o, short, owned)
        self.methods(o, short, owned)

    # families: arrays of handles acquired one per iteration
    def tag(self, st, acqs):
        st = st.copy()
        fam = {a.v: a for a in acqs if a.chain}
        for loc, A in list(st.mem.items()):
            A = norm(A) if isinstance(A, tuple) and A and A[0] == 'ap' else A
            if loc[0] == 'arr' and isinstance(A, tuple) and islam(A):
                s, e, body, base = ap_payload(A)
                if body in fam:
                    st.mem[loc] = ap('lam', s, e, ap('res', body, T.BIND), base)
                    fam[body].many = (norm(s), norm(e))
        # small member arrays have two forms: separate places and one array
        groups = {}
        for loc, v in st.mem.items():
            if loc[0] == 'f' and isinstance(loc[1], tuple) and loc[1][0] == 'addr' and re.match(r'\[\d+\]$', loc[2]):
                groups.setdefault(loc[1][1], []).append((num(int(loc[2][1:-1])), v))
        for base, vs in groups.items():
            A = ('arr', ('addr', base))
            if A not in st.mem:
                x = ('a0', ('addr', base))
                for i, v in sorted(vs, key=repr):
                    x = ('st', x, i, v)
                st.mem[A] = x
        for loc, A in list(st.mem.items()):
            if loc[0] == 'arr' and loc[1][0] == 'addr' and isinstance(A, tuple) and islam(A):
                s, e, body, base = ap_payload(A)
                ks = constrange((norm(s), norm(e)))
                for k in ks or ():
                    st.mem[('f', loc[1], '[%d]' % k)] = norm(elt(A, num(k)))
        return st

    def expand(self, it, what):
        """the handles of an item, one per iteration: list of handles, or ('range', handle, s, e), or None"""
        if not it.chain:
            if what == 'acq':
                return [it.v]
            return [it.v]
        if len(it.chain) != 1 or it.chain[0][1] is None:
            return None
        lid, r = it.chain[0]
        ks = constrange(r)
        ivar = None

        def f(x):
            nonlocal ivar
            if x[0] == 'ix' and x[1] == lid:
                ivar = x
            return None
        subst(it.v, f)
        if what == 'acq':
            if not it.many:
                return [('ap', 'res*', it.v)]
            if tuple(it.many) != tuple(r):
                return None
            if ks is not None:
                return [ap('res', it.v, num(k)) for k in ks]
            return [('range', it.v, r[0], r[1])]
        if ks is not None:
            if ivar is None:
                return [it.v] * len(ks)
            return [norm(subst(it.v, lambda x: num(k) if x == ivar else None)) for k in ks]
        if it.v[0] == 'ap' and it.v[1] == 'res':
            h, i = ap_payload(it.v)
            if i == ivar:
                return [('range', h, r[0], r[1])]
        if ivar is None:
            return [it.v, it.v]
        return None

    def name(self, o, st, v):
        """the field a handle rests in"""
        h = v[1] if v[0] == 'range' else v
        if h[0] == 'ap' and h[1] in ('res', 'res*'):
            h = h[2] if h[1] == 'res*' else ap_payload(h)[0]
        for loc, x in st.mem.items():
            n = outer(loc)
            if n and isinstance(x, tuple) and (x == h or (x[0] == 'ap' and contains(x, lambda y: y == h))):
                return n
        if h[0] == 'ld':
            return outer(h[1])
        return None

    def lifetime(self, o, short, ctor, sm, st, adopt):
        """constructor to destructor; returns the fields that own something"""
        its = items(st.trace)
        where = sm.where if sm else self.p.where(o.r['l'])
        acqs = [x for k, x in its if k == 'acq' and root(x.v) == x.v]
        # what lies inside an object made on the way belongs to that object
        inner = self.inside(st, acqs)
        acqs = [a for a in acqs if a.v not in inner]
        self.after(short, st.trace, where)
        st2 = self.tag(st, acqs)
        rel0 = [x for k, x in its if k == 'rel']
        owned = set()
        for fin in o.destroy(st2):
            self.after(short, fin.trace, where)
            rits = items(fin.trace)
            rels = [x for k, x in rits if k == 'rel']
            extra = [x for k, x in rits if k == 'acq']
            self.order(short, [x for x in rels])
            self.virtual(o, short, rels, its)
            self.balance(o, short, fin, acqs + extra, rel0, rels, adopt, where, owned)
        self.virtual(o, short, rel0, its)
        return owned

    def inside(self, st, acqs):
        objs = {a.v for a in acqs if a.kind == 'object'}
        out = set()
        for loc, v in st.mem.items():
            if not isinstance(v, tuple):
                continue
            l = loc
            if l[0] == 'arr':
                l = l[1]
                l = l[1] if l[0] == 'addr' else l
            r = root(l)
            if r in objs:
                for a in acqs:
                    if a.v != r and (v == a.v or (v[0] == 'ap' and contains(v, lambda y: y == a.v))):
                        out.add(a.v)
        return out

    def own(self, o, x):
        """is the item the work of this class, and not of an object it contains or makes"""
        c = self.p.fn.get(x.e.fn, {}).get('cls', '')
        return not c or c in {r['n'] for r in self.lineage(o.r)} or c.startswith(tuple(r['n'] + '::' for r in self.lineage(o.r)))

    def balance(self, o, short, fin, acqs, rel0, rels, adopt, where, owned):
        rep = self.rep
        acqs = [a for a in acqs if self.own(o, a)]
        mine = {a.v for a in acqs}
        rel0 = [x for x in rel0 if x.v in mine or self.own(o, x)]
        rels = [x for x in rels if x.v in mine or self.own(o, x)]
        need, blur = {}, False
        for a in acqs:
            hs = self.expand(a, 'acq')
            if hs is None:
                blur = True
                continue
            for h in hs:
                need[(self.fam(a.kind), h)] = (a, a.kind)
        for v in adopt:
            need[('object', v)] = (None, 'object')
        got = {}
        foreign = []
        for x in rel0 + rels:
            hs = self.expand(x, 'rel')
            if hs is None:
                blur = True
                continue
            for h in hs:
                if isnull(fin, h) is True:
                    continue
                k = (self.fam(x.kind), h)
                if k in need:
                    got.setdefault(k, []).append(x)
                    if x in rels:
                        n = self.name(o, fin, h)
                        if n:
                            owned.add(n)
                else:
                    foreign.append((x, h))
        for x, h in foreign:
            other = [k for k in need if k[1] == h]
            nm = self.name(o, fin, h) or 'something'
            at = self.p.where(x.e.line)
            if other:
                rep.bad('%s:%s:operation' % (short, nm), 'fails: what %s holds is released by the operation that matches how it was acquired (a %s is released as a %s)'
                        % (nm, need[other[0]][1], x.kind), at)
                for k in other:
                    got.setdefault(k, []).append(x)
            elif beyond(h):
                rep.bad('%s:%s:range' % (short, nm), 'fails: only what was acquired is released (entry %s of %s)' % (fmt(h[2]), fmt(h[1])[:60]), at)
            elif vague(h):
                blur = True
                rep.und('%s:%s' % (short, nm), 'what is released is not understood')
            elif h[0] in ('ld', 'p', 'c', 'addr') or (h[0] == 'ap' and h[1] == 'res'):
                rep.bad('%s:%s:foreign' % (short, nm), 'fails: only what the object acquired or adopted is released (%s is not)' % fmt(h), at)
            else:
                blur = True
                rep.und('%s:%s' % (short, nm), 'what is released is not understood: %s' % fmt(h)[:80])
        for (kind, h), (a, k0) in need.items():
            nm = self.name(o, fin, h)
            label = nm or (a.typ if a is not None and a.typ else k0)
            at = self.p.where(a.e.line) if a is not None else where
            n = len(got.get((kind, h), []))
            t = o.smart(nm) if nm else None
            if t and n == 0:
                bad = k0 in ('array', 'object') and 'default_delete' not in t and ',' not in t and ('[' in t) != (k0 == 'array')
                if bad:
                    rep.bad('%s:%s:operation' % (short, label), 'fails: the smart pointer %s releases what it holds by the matching operation' % label, at)
                elif k0 in ('array', 'object') or ',' in t:
                    rep.ok('%s: %s is released by the smart pointer that holds it' % (short, label))
                else:
                    rep.und('%s:%s' % (short, label), 'the deleter is not understood')
                continue
            if n == 1:
                rep.ok('%s: %s (%s) is released exactly once' % (short, label, k0))
            elif n == 0:
                if a is not None and isnull(fin, h) is True:
                    continue
                if blur or (nm is None and self.escapes(fin, h)):
                    rep.und('%s:%s' % (short, label), 'where it is released is not understood')
                elif nm is not None and not re.search(r'\*|N_Vector|SUN|KIN|void|\[', o.types.get(nm, '')):
                    rep.und('%s:%s' % (short, label), 'kept in a member whose type may release it')
                else:
                    rep.bad('%s:%s:leak' % (short, label), 'fails: %s is released when the object is destroyed' % label, at)
            else:
                rep.bad('%s:%s:twice' % (short, label), 'fails: %s is released only once' % label, self.p.where(got[(kind, h)][-1].e.line))

    def fam(self, kind):
        return kind

    def escapes(self, st, h):
        """the handle was stored somewhere or given to code that is not analysed"""
        h = h[1] if h[0] == 'range' else h
        if h[0] == 'ap' and h[1] in ('res', 'res*'):
            h = h[2] if h[1] == 'res*' else ap_payload(h)[0]
        for loc, v in st.mem.items():
            if loc[0] in ('v', 't', 'ref'):
                continue
            if loc == ('arr', h) or not isinstance(v, tuple):
                continue
            # reading what the storage holds does not pass the handle on
            v = subst(v, lambda y: NULL if y[0] == 'a0' or (y[0] == 'ld' and root(y[1]) == h) else None)
            if contains(v, lambda y: y == h):
                return True
        return False

    # ---------------------------------------------- order and use
    def order(self, short, rels):
        seen = {}
        for i, x in enumerate(rels):
            seen.setdefault(x.kind, []).append(i)
        for i, x in enumerate(rels):
            for k in NEEDS.get(x.kind, ()):
                for j in seen.get(k, []):
                    if k != 'SUNDIALS context' and rels[j].v != x.v:
                        continue
                    if j < i:
                        self.rep.bad('%s:order:%s' % (short, x.kind), 'fails: the %s is released before the %s it depends on' % (x.kind, k), self.p.where(x.e.line))
                    else:
                        self.rep.ok('%s: the %s is released before the %s' % (short, x.kind, k))

    def after(self, short, trace, where):
        """nothing is used once it has been released"""
        gone, before = {}, set()
        for e, facts, chain, i, tr in walk(trace):
            used = set()
            if e.k == 'loop' and not gone:
                before.add(e.x.id)
            vals = [val(a) for a in e.args] if e.k not in ('loop',) else []
            if e.k == 'wr':
                tgt = e.obj if isinstance(e.obj, tuple) else None
                if tgt is not None:
                    vals.append(root(tgt))
                vals = [v for v in vals]
            if any(isinstance(v, tuple) and contains(v, lambda y: y[0] == 'ap' and y[1] == 'freed') for v in vals if v is not None):
                self.rep.bad('%s:used:array' % short, 'fails: an array is not read after its release', self.p.where(e.line))
            if chain and gone:
                def stale(y):
                    if y[0] == 'ld' and y[1][0] in ('f', 'el'):
                        q = root(y[1])
                        return q[0] == 'padd' and q[1] in gone and contains(q[2], lambda z: z[0] == 'ix' and z[1] not in before)
                    return False
                if any(isinstance(v, tuple) and contains(norm(v), stale) for v in vals):
                    self.rep.bad('%s:used:array' % short, 'fails: an array is not read after its release', self.p.where(e.line))
            if e.obj is not None and e.k == 'call':
                vals.append(e.obj)
            if e.k == 'call' and isinstance(e.x, dict) and 'deref' in e.x:
                vals += list(e.x['deref'].values())
            isrel = e.k == 'delete' or (e.k == 'call' and e.name in REL and isinstance(e.x, dict))
            for v in vals:
                if not isinstance(v, tuple):
                    continue
                v = norm(v)
                for g, (kind, ge) in gone.items():
                    if not isrel and (v == g or root(v) == g):
                        used.add((g, kind, ge))
                    elif isrel and v == g and e is not ge:
                        k2 = REL[e.name][0] if e.k == 'call' else ('array' if e.x else 'object')
                        if kind == 'unit' and k2 in ('instance', 'library') or kind == 'block' and k2 == 'directory':
                            used.add((g, kind, ge))
            if e.k == 'wr' and not chain:
                # a plain copy of the pointer is no use
                used = {u for u in used if isinstance(e.obj, tuple) and root(e.obj) == u[0]}
            for g, kind, ge in used:
                self.rep.bad('%s:used:%s' % (short, kind), 'fails: a %s is not used after its release' % kind, self.p.where(e.line))
            if e.k == 'delete':
                v = norm(e.args[0])
                if v != NULL and not chain:
                    gone[v] = ('array' if e.x else 'object', e)
            elif isrel:
                kind, w = REL[e.name]
                v = norm(place(e, w))
                if v != NULL and not chain and kind in ('vector', 'matrix', 'linear solver', 'unit', 'import context', 'block', 'variable list', 'KINSOL memory'):
                    gone[v] = (kind, e)

    def virtual(self, o, short, rels, its):
        made = {x.v: x.typ for k, x in its if k == 'acq' and x.kind == 'object'}
        for x in rels:
            if x.kind != 'object':
                continue
            t = x.typ.replace('const ', '').strip()
            r = self.p.records.get(t)
            if r is None:
                continue
            if made.get(x.v) == t:
                continue
            poly = bool(self.derived(t)) or any(m.get('virt') for m in r['m'] if not m['n'].startswith('~'))
            if r.get('vdtor') or not poly:
                self.rep.ok('%s: %s can be destroyed through a pointer to it' % (short, r['b']))
            else:
                self.rep.bad('%s:virtual:%s' % (short, r['b']), 'fails: %s has a virtual destructor, being destroyed through a pointer to the base' % r['b'], self.p.where(r['l']))

    # ---------------------------------------------- copies
    def copies(self, o, short, owned):
        raw = [n for n in owned if not o.smart(n)]
        if not raw:
            return
        for key, text in (('copyctor', 'copy constructor'), ('copyasg', 'copy assignment'), ('movector', 'move constructor'), ('moveasg', 'move assignment')):
            s = o.r.get(key)
            if s is None:
                continue
            if s == 'deleted' or (s == 'none' and key.startswith('move')):
                self.rep.ok('%s: no %s duplicates what the object owns' % (short, text))
            elif s == 'user':
                self.rep.und('%s:%s' % (short, key), 'written by hand')
            elif s in ('default', 'implicit'):
                self.rep.bad('%s:%s' % (short, key), 'fails: no %s duplicates what the object owns (%s)' % (text, ', '.join(sorted(raw))), self.p.where(o.r['l']))

    # ---------------------------------------------- member functions
    def callers(self, fid):
        if not hasattr(self, '_cg'):
            self._cg = {}
            for f in self.p.fn.values():
                def go(x, f=f):
                    if isinstance(x, dict):
                        for key in ('fn', 'f'):
                            t = x.get(key)
                            t = t.get('id') if isinstance(t, dict) else None
                            if t in self.p.fn:
                                self._cg.setdefault(t, set()).add(f['id'])
                        for v in x.values():
                            go(v)
                    elif isinstance(x, list):
                        for v in x:
                            go(v)
                go(f.get('body'))
                go(f.get('inits'))
        return self._cg.get(fid, set())

    def entries(self, f):
        """the functions outside the private part of the class through which a private function is reached"""
        seen, todo, out = set(), [f['id']], set()
        while todo:
            i = todo.pop()
            for c in self.callers(i):
                if c in seen:
                    continue
                seen.add(c)
                g = self.p.fn[c]
                if g.get('acc') == 2 and not g.get('isctor') and not g.get('isdtor'):
                    todo.append(c)
                else:
                    out.add(c)
        return [self.p.fn[i] for i in out]

    def methods(self, o, short, owned):
        for f in self.fns(o.n):
            if f.get('isctor') or f.get('isdtor') or f.get('body') is None:
                continue
            c = self.calls(f)
            if not c and not self.assigns(f, owned):
                continue
            work = [f]
            if f.get('acc') == 2:
                trial = Rep(self.rep.pid)
                self.judge(o, short, f, owned, trial)
                sure = [x for x in trial.refuted if x[0].endswith((':leak', ':operation', ':twice')) and not self.onlyctor(f)]
                if not trial.refuted and not trial.open or sure:
                    for x in sure or [None]:
                        if x:
                            self.rep.bad(*x)
                    if not sure:
                        self.judge(o, short, f, owned, self.rep)
                    continue
                # judged where it is used
                work = [g for g in self.entries(f) if not g.get('isctor') and not g.get('isdtor')]
            for g in work:
                self.judge(o, short, g, owned, self.rep, f)

    def onlyctor(self, f):
        return all(g.get('isctor') or g.get('isdtor') for g in self.entries(f))

    def judge(self, o, short, f, owned, rep, inner=None):
        old, self.rep = self.rep, rep
        try:
            cfg, nm = rescfg(self.tu)(), 'res'
            if inner is not None and (inner['clsb'], inner['n']) in cfg.opaque:
                cfg.opaque.discard((inner['clsb'], inner['n']))
                nm = 'res:' + inner['n']
            sm = self.cx.summary(self.tu, f, nm, cfg=cfg).use(rep)
            for st in sm.normal():
                self.method(o, short, f, sm, st, owned)
        except Undecided as e:
            rep.und('%s:%s' % (short, f['n']), str(e))
        finally:
            self.rep = old

    def method(self, o, short, f, sm, st, owned):
        lab = '%s:%s' % (short, f['n'])
        self.after(lab, st.trace, sm.where)
        its = items(st.trace)
        acqs = [x for k, x in its if k == 'acq' and root(x.v) == x.v]
        inner = self.inside(st, acqs)
        acqs = [a for a in acqs if a.v not in inner and self.own(o, a)]
        rel0 = [x for k, x in its if k == 'rel' and self.own(o, x)]
        self.virtual(o, lab, rel0, its)
        # the values of the owned fields that this path replaces or releases
        init = {}
        for n in owned:
            loc = ('f', TH, n)
            v0 = ('ld', loc)
            touched = (loc in st.mem and norm(st.mem[loc]) != v0) or any(x.v == v0 for x in rel0)
            if touched and isnull(st, v0) is not True:
                init[n] = v0
        if any(x.chain for x in acqs + rel0):
            kinds = {x.kind for x in rel0}
            for e, facts, chain, i, tr in walk(st.trace):
                if e.k == 'wr' and e.obj and e.obj[0] == 'f' and e.obj[1] == TH and e.obj[2] in owned and not o.smart(e.obj[2]):
                    v = norm(val(e.args[0]))
                    for a in acqs:
                        if a.v == v and a.kind not in kinds and not any(contains(norm(q), lambda y: y == e.obj) for q in facts):
                            self.rep.bad('%s:%s:lost' % (lab, e.obj[2]), 'fails: what %s held is released before it is replaced' % e.obj[2], self.p.where(e.line))
            self.rep.und(lab, 'acquires or releases inside a loop')
            return
        mine = {}
        for a in acqs:
            mine[(a.kind, a.v)] = (a, a.typ or a.kind)
        for fin in o.destroy(st):
            rels = [x for k, x in items(fin.trace) if k == 'rel']
            kinds = {}
            for x in rel0 + rels:
                if not x.chain and isnull(fin, x.v) is not True:
                    kinds.setdefault(x.v, []).append(x)
            for (kind, v), (a, label) in mine.items():
                xs = kinds.get(v, [])
                nm = self.name(o, st, v)
                at = self.p.where(a.e.line)
                if isnull(fin, v) is True:
                    continue
                if nm and o.smart(nm):
                    continue
                if not xs:
                    if st.out is not None and len(st.out) > 1 and isinstance(st.out[1], tuple) and contains(st.out[1], lambda y: y == v):
                        self.rep.und(lab, 'hands what it acquired to the caller')
                    elif nm is None and self.escapes(st, v):
                        self.rep.und(lab, 'where what it acquired rests is not understood')
                    else:
                        self.rep.bad('%s:leak' % lab, 'fails: what is acquired (%s) is released' % label, at)
                elif len(xs) > 1:
                    self.rep.bad('%s:twice' % lab, 'fails: what is acquired (%s) is released only once' % label, self.p.where(xs[-1].e.line))
                elif xs[0].kind != kind:
                    self.rep.bad('%s:operation' % lab, 'fails: what is acquired (%s) is released by the matching operation' % label, self.p.where(xs[0].e.line))
                else:
                    self.rep.ok('%s: what is acquired (%s) is released exactly once' % (lab, label))
            for n, v in init.items():
                if o.smart(n):
                    continue
                xs = kinds.get(v, [])
                held = self.name(o, st, v)
                if len(xs) == 1:
                    self.rep.ok('%s: what %s held is released exactly once' % (lab, n))
                elif not xs:
                    if st.out is not None and len(st.out) > 1 and isinstance(st.out[1], tuple) and contains(st.out[1], lambda y: y == v):
                        self.rep.und(lab, 'hands what %s held to the caller' % n)
                    else:
                        self.rep.bad('%s:%s:lost' % (lab, n), 'fails: what %s held is released before it is replaced' % n, sm.where)
                else:
                    self.rep.bad('%s:%s:twice' % (lab, n), 'fails: what %s held is released only once' % n, self.p.where(xs[0].e.line))
        for x in rel0:
            if x.v[0] == 'p' or (x.v[0] == 'ld' and x.v[1][0] == 'f' and x.v[1][1] == TH and x.v[1][2] not in owned and x.v not in init.values()):
                if isnull(st, x.v) is not True:
                    self.rep.bad('%s:foreign' % lab, 'fails: only what the object owns is released', self.p.where(x.e.line))


def R01(cx, rep):
    """Ownership analysis: acquisitions on every constructor path, handed to the destructors of the class and its bases and matched with the releases there (count, operation, order); owned members replaced by member functions; copies and virtual destructors"""
    done = set()
    for tu in ('core', 'solvers'):
        Res(cx, rep, tu, done).run()
    rep.proven[:] = list(dict.fromkeys(rep.proven))
    rep.open[:] = list(dict.fromkeys(rep.open))
    if not rep.proven and not rep.refuted and not rep.open:
        raise Broken('no class of the library owns anything')
