"""R02: room.

A bounds analysis of the arrays the solvers own.  The length of every array (or SUNDIALS vector or matrix) is read off
its allocation in the constructor; the largest index of every store and read, and the length every callee is
documented to use, are linear forms in the number of state variables and of event functions, compared symbolically.
"""
from rules_res import *

SYS = 'adevs::ode_system'
# what the functions of the interfaces touch: argument -> length
NEED = {
    'init': {0: 'N'}, 'der_func': {0: 'N', 1: 'N'}, 'state_event_func': {0: 'N', 1: 'M'}, 'time_event_func': {0: 'N'},
    'postStep': {0: 'N'}, 'postTrialStep': {0: 'N'}, 'internal_event': {0: 'N', 1: 'M1'}, 'external_event': {0: 'N'},
    'confluent_event': {0: 'N', 1: 'M1'}, 'output_func': {0: 'N', 1: 'M1'}, 'get_jacobian': {0: 'N', 1: 'NN'},
    'integrate': {0: 'N'}, 'advance': {0: 'N'}, 'find_events': {0: 'M', 1: 'N', 2: 'N'},
}
# C interfaces: argument positions of the arrays, position of the count
COUNTED = {
    'fmi2_import_set_continuous_states': ((1,), 2), 'fmi2_import_get_continuous_states': ((1,), 2),
    'fmi2_import_get_derivatives': ((1,), 2), 'fmi2_import_get_event_indicators': ((1,), 2),
    'fmi2_import_get_nominals_of_continuous_states': ((1,), 2),
    'fmi2_import_get_real': ((1, 3), 2), 'fmi2_import_set_real': ((1, 3), 2), 'fmi2_import_get_integer': ((1, 3), 2),
    'fmi2_import_set_integer': ((1, 3), 2), 'fmi2_import_get_boolean': ((1, 3), 2), 'fmi2_import_set_boolean': ((1, 3), 2),
    'fmi2_import_get_string': ((1, 3), 2), 'fmi2_import_set_string': ((1, 3), 2),
    'fmi2_import_get_directional_derivative': ((3, 5), 4),
}
VIEW = {'N_VGetArrayPointer', 'SUNDenseMatrix_Data', 'N_VGetArrayPointer_Serial'}
sN, sM = ('p', '#N', 0), ('p', '#M', 1)
LEN = {'N': sN, 'M': sM, 'M1': add(sM, num(1)), 'NN': mul(sN, sN)}


def counts(cx, name):
    out = set()
    for f in cx.prog('solvers').find(SYS, name):
        for s in cx.summary('solvers', f, 'solver').normal():
            o = s.out[1] if s.out else None
            if o is not None and o[0] == 'ld' and o[1][0] == 'f':
                out.add(o[1][2])
    return out


class Size:
    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep
        self.p = cx.prog('solvers')
        self.nN, self.nM = counts(cx, 'numVars'), counts(cx, 'numEvents')
        if not self.nN or not self.nM:
            raise Undecided('the counts of the system are computed')
        self.sites = 0

    def run(self):
        p = self.p
        seen = set()
        for q, fs in sorted(p.byq.items()):
            for f in fs:
                if f.get('isctor') and f.get('body') is not None and not f.get('del') and f.get('cls') not in seen:
                    b = f['clsb']
                    if b in seen or not b.startswith('adevs::'):
                        continue
                    seen.add(b)
                    self.cls(b)

    def ctors(self, b):
        return [f for f in self.p.find(b, b.split('::')[-1]) if f.get('isctor') and f.get('body') is not None and not f.get('del')]

    def summary(self, f):
        return self.cx.summary('solvers', f, 'solver:size', cfg=sizecfg()).use(self.rep)

    def cls(self, b):
        short = b.split('::')[-1]
        sts = []
        for f in self.ctors(b):
            try:
                s = self.summary(f)
            except Undecided as e:
                if 'new' in repr(f.get('body')) or f.get('inits'):
                    self.rep.und(short, str(e))
                continue
            sts += [(s, st) for st in s.normal()]
        caps = [(s, st, self.caps(st)) for s, st in sts]
        caps = [(s, st, c) for s, st, c in caps if c]
        if not caps and not self.derived(b):
            return
        # the constructor itself
        self.rep.functions.setdefault(short, {'paths': len(sts)})
        for s, st, c in caps:
            self.use(short, s.fn, st, {}, st, c, s)
        # the members
        envs, keys = [], set()
        for s, st, c in caps:
            k = repr(sorted(c.items(), key=repr)) + repr([st.mem.get(l) for l in c])
            if k not in keys:
                keys.add(k)
                envs.append((st, c))
        if not envs:
            envs = [(None, {})]
        for (bb, n), fs in sorted(self.p.byq.items()):
            if bb != b:
                continue
            for f in fs:
                if f.get('isctor') or f.get('isdtor') or f.get('body') is None or f.get('del'):
                    continue
                try:
                    s = self.summary(f)
                except Undecided as e:
                    self.rep.und('%s:%s' % (short, n), str(e))
                    continue
                for st in s.normal() + s.thrown():
                    for ct, c in envs:
                        self.use(short, f, st, self.contract(f), ct, c, s)

    def derived(self, b):
        """implements one of the interfaces whose array arguments have a documented length"""
        return any(b == x[0] and x[1] in NEED for x in self.p.byq) and b not in (SYS, 'adevs::ode_solver', 'adevs::event_locator')

    # -------------------------------------------------- lengths
    def caps(self, st):
        """what this constructor path allocated: pointer -> length"""
        out = {}
        for e, facts, chain, i, tr in walk(st.trace):
            if e.k == 'new' and e.x and e.x != 'shared' and e.args:
                out[norm(e.ret)] = norm(val(e.args[0]))
            elif e.k == 'call' and isinstance(e.x, dict) and 'deref' in e.x:
                a = [norm(x) for x in e.x['args']]
                if e.name in ('N_VNew_Serial',):
                    out[norm(e.ret)] = a[0]
                elif e.name == 'N_VClone' and a[0] in out:
                    out[norm(e.ret)] = out[a[0]]
                elif e.name == 'SUNDenseMatrix':
                    out[norm(e.ret)] = mul(a[0], a[1])
        return out

    def contract(self, f):
        out = {}
        fp = fnames(f, self.p)
        for i, l in NEED.get(f['n'], {}).items() if self.iface(f['clsb']) else ():
            if i < len(fp):
                out[fp[i]] = LEN[l]
        ts = [self.p.t(x['t']) for x in f['params']]
        # callbacks: vectors of the state, matrices of the Jacobian
        for i, t in enumerate(ts):
            if t.startswith('N_Vector') or '_generic_N_Vector' in t:
                out[fp[i]] = sN
            elif t.startswith('SUNMatrix') or '_generic_SUNMatrix' in t:
                out[fp[i]] = mul(sN, sN)
        return out

    def resolve(self, t, ct, deep):
        """what a constructor left in the fields of the object; the counts of the system by their symbols"""
        def f(x):
            if x[0] == 'ld' and x[1][0] in ('f', 'el'):
                loc = self.resolve(x[1], ct, deep)
                if loc[0] == 'f' and not deep:
                    if loc[2] in self.nN and self.issys(loc[1]):
                        return sN
                    if loc[2] in self.nM and self.issys(loc[1]):
                        return sM
                if ct is not None and loc[0] == 'f' and loc[1][0] == 'addr' and ('arr', loc[1]) in ct.mem:
                    # small fixed arrays of pointers
                    A = norm(ct.mem[('arr', loc[1])])
                    i = int(loc[2][1:-1]) if isinstance(loc[2], str) and re.match(r'^\[\d+\]$', loc[2]) else None
                    if islam(A) and i is not None:
                        s, e, body, base = ap_payload(A)
                        if isnum(s) and isnum(e) and not contains(body, lambda y: y == T.BIND):
                            return body if s[1] <= i < e[1] else ('unset', loc)
                if ct is not None and loc in ct.mem:
                    v = norm(ct.mem[loc])
                    return v if contains(v, lambda y: y == ('ld', loc)) else self.resolve(v, ct, deep)
                if loc[0] == 'f':
                    if loc[2] in self.nN and self.issys(loc[1]):
                        return sN
                    if loc[2] in self.nM and self.issys(loc[1]):
                        return sM
                return ('ld', loc)
            if x[0] == 'elt' and ct is not None and x[1][0] == 'a0' and ('arr', x[1][1]) in ct.mem:
                A = norm(ct.mem[('arr', x[1][1])])
                if islam(A) and not contains(ap_payload(A)[2], lambda y: y == T.BIND):
                    return ap_payload(A)[2]
            return None
        return subst(t, f)

    def issys(self, base):
        return base[0] in ('p', 'this', 'ld') and base != TH or base == TH and self.sysme

    def use(self, short, f, st, contract, ct, caps, sm):
        self.sysme = any(x == 'adevs::ode_system' for x in self.bases(f['clsb']))
        alias = {}
        lab = '%s:%s' % (short, f['n'])

        def cap(ptr):
            """(length, name) of what a pointer points to"""
            ptr = norm(ptr)
            off = num(0)
            if ptr[0] == 'padd':
                ptr, off = ptr[1], ptr[2]
            nm = fmt(ptr)
            for _ in range(4):
                if ptr in alias:
                    ptr = alias[ptr]
            if ptr in contract:
                return sub(contract[ptr], off), nm, 'documented'
            if ptr[0] == 'addr' and ptr[1][0] == 'f' and ptr[1][1] == TH:
                m = re.search(r'\[(\d+)\]$', self.types(f['clsb']).get(ptr[1][2], ''))
                return (sub(num(int(m.group(1))), off), nm, 'declared') if m else None
            r = self.resolve(ptr, ct, False)
            if ct is not None and r == ptr and self.unset(f['clsb'], ptr, ct):
                r = ('unset', ptr)
            if r[0] == 'unset':
                self.rep.bad('%s:%s' % (lab, nm), 'fails: %s has been allocated' % nm, sm.where)
            if r in caps:
                return sub(caps[r], off), nm, 'allocated'
            return None
        for e, facts, chain, i, tr in walk(st.trace, st.facts):
            at = self.p.where(e.line) if e.line else sm.where
            if e.k == 'call' and e.name in VIEW:
                a = e.x['args'] if isinstance(e.x, dict) and 'args' in e.x else [val(x) for x in e.args]
                if e.ret is not None and a:
                    alias[norm(e.ret)] = norm(a[0])
            elif e.k == 'wr' and isinstance(e.obj, tuple) and e.obj[0] == 'el':
                c = cap(e.obj[1])
                if c:
                    self.index(lab, c, e.obj[2], facts, ct, at, 'store')
            elif e.k == 'bulk' and e.obj is not None and e.obj[0] == 'arr':
                c = cap(e.obj[1])
                if c:
                    self.cmp(lab, c, norm(e.args[0]), ct, at, 'copy')
            elif e.k == 'call':
                a = [val(x) for x in e.args]
                if e.name in COUNTED:
                    ai, ci = COUNTED[e.name]
                    if ci < len(a):
                        for k in ai:
                            if k < len(a):
                                c = cap(a[k])
                                if c:
                                    self.cmp(lab, c, norm(a[ci]), ct, at, e.name)
                elif e.name in NEED and e.cls and self.iface(e.cls):
                    for k, l in NEED[e.name].items():
                        if k < len(a):
                            c = cap(a[k])
                            if c:
                                self.cmp(lab, c, LEN[l], ct, at, e.name)
            # what is read
            vals = []
            if e.k in ('wr', 'call', 'bulk') and e.args:
                vals = [val(x) for x in e.args]
            for v in vals:
                if isinstance(v, tuple):
                    self.reads(lab, v, facts, ct, at, cap)

    def reads(self, lab, v, facts, ct, at, cap):
        seen = set()
        for x in subterms(v, lambda y: y[0] == 'elt' and y[1][0] == 'a0'):
            if x in seen or contains(x[2], lambda y: y == T.BIND):
                continue
            seen.add(x)
            c = cap(x[1][1])
            if c:
                self.index(lab, c, x[2], facts, ct, at, 'read')

    def types(self, b):
        return {x['n']: self.p.t(x['t']) for r in self.p.recb.get(b, [])[:1] for x in r['f']}

    def unset(self, b, ptr, ct):
        """a pointer field that neither this way of construction nor a member function sets"""
        if ptr[0] != 'ld':
            return False
        loc = ptr[1]
        if loc[0] == 'f' and loc[1][0] == 'addr':
            fld, whole = loc[1][1], ('arr', loc[1])
        else:
            fld, whole = loc, None
        if fld[0] != 'f' or fld[1] != TH or fld[2] not in self.types(b) or loc in ct.mem or whole in ct.mem:
            return False
        if self.types(b)[fld[2]].find('*') < 0:
            return False
        for (bb, n), fs in self.p.byq.items():
            if bb != b:
                continue
            for g in fs:
                if g.get('isctor') or g.get('isdtor') or g.get('body') is None or g.get('del'):
                    continue
                try:
                    s = self.summary(g)
                except Undecided:
                    return False
                for st in s.states:
                    if any(e.k == 'wr' and isinstance(e.obj, tuple) and contains(e.obj, lambda y: y == fld) and e.obj[0] != 'el' for e, *_ in walk(st.trace)):
                        return False
        return True

    def iface(self, cls):
        b = cls.split('<')[0]
        return any(x in (SYS, 'adevs::ode_solver', 'adevs::event_locator') for x in [b] + self.bases(b))

    def bases(self, b):
        out = []
        for r in self.p.recb.get(b, []):
            for x in r.get('bases', []):
                n = x if isinstance(x, str) else x.get('n', '')
                n = n.split('<')[0]
                if n not in out:
                    out += [n] + self.bases(n)
        return out

    # -------------------------------------------------- comparisons
    def index(self, lab, c, idx, facts, ct, at, what):
        i = norm(idx)
        if not numericish(i):
            return
        guard = decide(facts, lit_pos(sub(c[0], i), True))
        lo = i
        for _ in range(4):
            d = to_poly(lo)
            ix = [x for m in d for x, _ in m if x[0] == 'ix']
            if not ix:
                break
            x = ix[0]
            if x[1] in T.AWAY and x[1] not in T.LOOPRANGE:
                if T.AWAY[x[1]] < 0 and len(d) == 1:
                    self.rep.bad('%s:%s' % (lab, c[1]), 'fails: %s has room for every element that is used (%s uses an index that counts down past the first element)' % (c[1], what), at)
                return
            if x[1] not in T.LOOPRANGE:
                break
            s, e = T.LOOPRANGE[x[1]]
            down = any(k < 0 for m, k in d.items() if any(y == x for y, _ in m))
            lo = norm(subst(lo, lambda y: (sub(e, num(1)) if down else s) if y == x else None))
        if isnum(lo) and lo[1] < 0 and decide(facts, lit_pos(add(i, num(1)), True)) is not True:
            self.rep.bad('%s:%s' % (lab, c[1]), 'fails: %s has room for every element that is used (%s uses element %s)' % (c[1], what, fmt(lo)), at)
            return
        for _ in range(4):
            d = to_poly(i)
            ix = [x for m in d for x, _ in m if x[0] == 'ix']
            if not ix:
                break
            x = ix[0]
            if x[1] not in T.LOOPRANGE:
                return
            s, e = T.LOOPRANGE[x[1]]
            co = [k for m, k in d.items() if any(y == x for y, _ in m)]
            if any(k < 0 for k in co):
                i = norm(subst(i, lambda y: s if y == x else None))
            else:
                i = norm(subst(i, lambda y: sub(e, num(1)) if y == x else None))
        if guard is True:
            self.good(lab, c, what)
            return
        self.cmp(lab, c, add(i, num(1)), ct, at, what)

    def good(self, lab, c, what):
        self.sites += 1
        self.rep.ok('%s: %s has room (%s)' % (lab, c[1], what))

    def cmp(self, lab, c, need, ct, at, what):
        for deep in (False, True):
            a = self.resolve(c[0], ct, deep)
            b = self.resolve(need, ct, deep)
            if contains(a, nullb) or contains(b, nullb):
                return      # another way of construction
            r = room(a, b)
            if r is not None:
                break
        key = '%s:%s' % (lab, c[1])
        if r is True:
            self.good(lab, c, what)
        elif r is False:
            self.rep.bad(key, 'fails: %s has room for every element that is used (%s %s, %s uses %s)' % (c[1], fmtn(a), c[2], what, fmtn(b)), at)
        else:
            self.rep.und(key, '%s of %s against %s' % (what, fmtn(b), fmtn(a)))


def fmtn(t):
    return fmt(subst(t, lambda x: ('p', 'numVars()', 0) if x == sN else ('p', 'numEvents()', 0) if x == sM else None))[:80]


def nullb(x):
    return x[0] == 'f' and x[1] == NULL


def count(x):
    return x in (sN, sM) or x[0] == 'ret' and 'number_of' in str(x[1])


def room(a, b):
    """is length a at least b: True, False (not for every system), None"""
    if a[0] == 'ap' and a[1] == 'max':
        r = [room(x, b) for x in ap_payload(a)]
        return True if True in r else (False if all(x is False for x in r) else None)
    if b[0] == 'ap' and b[1] == 'max':
        r = [room(a, x) for x in ap_payload(b)]
        return True if all(x is True for x in r) else (False if False in r else None)
    if b[0] == 'ap' and b[1] == 'min':
        r = [room(a, x) for x in ap_payload(b)]
        return True if True in r else None
    if not numericish(a) or not numericish(b):
        return None
    d = to_poly(sub(a, b))
    if any(not count(x) for m in d for x, _ in m):
        return True if all(k == 0 for k in d.values()) else None
    if len({x[0] for m in d for x, _ in m}) > 1:
        return None     # the same number by two names
    k = d.get((), 0)
    rest = [v for m, v in d.items() if m != ()]
    if not rest:
        return k >= 0
    if all(v > 0 for v in rest):
        # systems have at least one variable
        if k >= 0:
            return True
        return True if k >= -1 and any(x == sN for m, v in d.items() for x, _ in m) else None
    if all(v < 0 for v in rest):
        return False
    # of both signs: one count against another
    if all(len(m) == 1 and m[0][1] == 1 for m in d if m != ()):
        return False
    return None


def sizecfg():
    c = rescfg('solvers')()
    c.poison = False
    return c


def R02(cx, rep):
    """Bounds analysis: lengths of the arrays, vectors and matrices allocated by the solvers' constructors against the largest index stored to or read and the lengths that callees use, as linear forms in the numbers of state variables and event functions"""
    s = Size(cx, rep)
    s.run()
    rep.proven[:] = list(dict.fromkeys(rep.proven))
    rep.open[:] = list(dict.fromkeys(rep.open))
    if not s.sites:
        raise Broken('no solver keeps arrays of its own')
