"""Shared machinery of the rules: loading, summaries, walking, verdicts."""
import os
import subprocess
import time
from engine import *
import terms as T
import adevs_models as M

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ADEVS_REPO', '/repo')


class Undecided(Exception):
    pass


class Broken(Exception):
    """the public interface a rule is anchored in is gone"""


class Rep:
    def __init__(self, pid):
        self.pid = pid
        self.proven, self.refuted, self.open = [], [], []
        self.functions = {}
        self.notes = []

    def ok(self, what):
        self.proven.append(what)

    def bad(self, key, what, where):
        if not any(k == key for k, _, _ in self.refuted):
            self.refuted.append((key, what, where))

    def und(self, what, why=''):
        self.open.append((what, why))

    def check(self, cond, key, what, where):
        """cond: True / False / None"""
        if cond is True:
            self.ok('%s: %s' % (key, what))
        elif cond is False:
            self.bad(key, 'fails: ' + what, where)
        else:
            self.und('%s: %s' % (key, what))


class Ctx:
    def __init__(self):
        self._p = {}
        self._s = {}

    def prog(self, tu):
        if tu not in self._p:
            out = os.path.join(VERIF, '.build', '%s.%d.json' % (tu, os.getpid()))
            ext = os.path.join(VERIF, '.build', 'extract')
            if not os.path.exists(ext) or os.environ.get('VERIF_BUILD'):
                subprocess.check_call(['bash', os.path.join(VERIF, 'extract', 'build.sh')], stdout=subprocess.DEVNULL)
            r = subprocess.run([ext, out, REPO + '/include/adevs,' + REPO + '/src',
                                os.path.join(VERIF, 'extract', 'tu_%s.cpp' % tu), '--', '-std=c++17',
                                '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + os.path.join(VERIF, 'extract', 'stub'),
                                '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try:
                if r.returncode != 0:
                    raise Broken('source does not parse: ' + r.stdout[-1500:])
                self._p[tu] = Prog(out)
            finally:
                if os.path.exists(out):
                    os.unlink(out)
        return self._p[tu]

    def summary(self, tu, fn, cfgname, cfg=None, this=('this',), pre=None):
        k = (tu, fn['id'], cfgname)
        if k not in self._s:
            t = time.time()
            p = self.prog(tu)
            try:
                eng = Engine(p, cfg or M.CONFIGS[cfgname]())
                res = eng.run(fn, this=this, pre=pre) if pre else eng.run(fn, this=this)
                self._s[k] = Summary(p, fn, res, time.time() - t, eng)
            except (Unsupported, TooComplex, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                self._s[k] = e
        s = self._s[k]
        if isinstance(s, Exception):
            raise Undecided('%s cannot be analysed: %s %s' % (fn['q'], type(s).__name__, str(s)[:200]))
        return s


class Summary:
    def __init__(self, prog, fn, states, secs, eng):
        self.prog, self.fn, self.states, self.secs, self.eng = prog, fn, states, secs, eng
        self.imp = sorted(set(i for s in states for i in s.imp))

    @property
    def where(self):
        return self.prog.where(self.fn['l'])

    def at(self, ev):
        return self.prog.where(ev.line) if ev is not None and ev.line else self.where

    def normal(self):
        return [s for s in self.states if s.out is None or s.out[0] == 'ret']

    def thrown(self):
        return [s for s in self.states if s.out is not None and s.out[0] == 'throw']

    def use(self, rep):
        n = sum(1 for s in self.states for _ in walk(s.trace))
        rep.functions[self.fn['q'] + '(' + ','.join(self.prog.t(x['t']) for x in self.fn.get('params', [])) + ')'] = {
            'at': self.where, 'paths': len(self.states), 'events': n, 'imprecision': self.imp}
        for st in self.states:
            for e, f, chain, i, tr in walk(st.trace, st.facts):
                if e.k != 'enditer' or islocal(e.obj):
                    continue
                k = e.args[0]
                if k is None or contains(k, lambda x: len(x) > 1 and x[0] in ('elem', 'ce', 'unk', 'phi', 'fin')) or vague_path(f) or st.imp:
                    continue        # whether there is such an entry follows from something else
                if any(a[0] in ('has', 'some') and s and a[-1] == k for a, s in f.items()):
                    continue
                rep.bad('end:%s' % self.fn['n'], 'fails: an entry is used only where there is one (%s may have none for %s)' % (fmt(e.obj), fmt(k)), self.at(e))
        return self


# ------------------------------------------------------------------ walking
def walk(trace, facts=None, chain=()):
    """(event, facts in force, chain of (loop, path), index, trace)"""
    facts = facts or {}
    for i, e in enumerate(trace):
        yield e, facts, chain, i, trace
        if e.k == 'loop':
            L = e.x
            for p in L.paths:
                f = dict(facts)
                f.update(p.facts)
                yield from walk(p.trace, f, chain + ((L, p),))


def events(trace, k=None, name=None):
    for e, *_ in walk(trace):
        if (k is None or e.k == k) and (name is None or e.name in ((name,) if isinstance(name, str) else name)):
            yield e


VAGUE = {'unk', 'cfin', 'phi', 'aphi', 'lphi'}


def vague(t):
    return contains(t, lambda x: len(x) > 0 and (x[0] in VAGUE or (x[0] == 'ap' and isinstance(x[1], str) and x[1].endswith('?'))))


def val(a):
    return a.val if isinstance(a, Arg) else a


def deld(t):
    """drops memory epochs: what was read from where"""
    return subst(t, lambda x: ('ld', deld(x[1])) if len(x) == 3 and x[0] == 'ld' else None)


def named(t, name):
    return t[0] == 'ld' and t[1][0] == 'f' and t[1][2] == name


def ld(loc):
    return ('ld', loc)


def fld(p, n):
    return ('f', p, n)


def first_value(sm, v):
    """the value of v in the first round of the loops it is carried through; None when it is not determined"""
    phis = {}
    loops = []
    def visit(tr):
        for e in tr:
            if e.k == 'loop':
                loops.append(e.x)
                for u in e.x.updates.values():
                    phis.setdefault(u[1], (u[0], e.x))
                for p in e.x.paths:
                    visit(p.trace)
    for st in sm.states:
        visit(st.trace)
    for _ in range(6):
        hit = subterms(v, lambda t: t in phis)
        if not hit:
            break
        init, L = phis[hit[0]]
        own = [u[1] for u in L.updates.values()]
        if any(contains(a, lambda t: t in own) for p in L.paths for a in p.facts):
            return None
        v = swap(v, hit[0], init)
    return None if vague(v) else v


def swap(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        return tuple(swap(x, old, new) for x in v)
    return v


def vague_path(facts, trace=()):
    return any(vague(a) for a in facts)


def consistent(facts, lits):
    """facts plus literals, or None when contradictory"""
    f = dict(facts)
    for l in lits:
        d = decide(f, l)
        if d is False:
            return None
        if d is None:
            f[l[0]] = l[1]
    return f


def facts_map(facts, fun):
    out = {}
    for a, s in facts.items():
        b = subst(a, fun)
        if b[0] == 'eq':
            l = lit_eq(b[1], b[2])
            if isinstance(l, bool):
                continue
            b, sg = l
            s = s if sg else not s
        out[b] = s
    return out


def fnkey(fn, prog):
    return '%s::%s(%s)' % (fn.get('clsb', ''), fn['n'], ','.join(prog.t(x['t']) for x in fn.get('params', [])))


def need(prog, clsb, name, **kw):
    r = prog.find(clsb, name, **kw)
    if not r:
        raise Broken('%s::%s is gone' % (clsb, name))
    return r


def rec(prog, b, inst=None):
    for r in prog.recb.get(b, []):
        if inst is None or inst in r['n']:
            return r
    raise Broken('class %s is gone' % b)


def role(prog, clsb, name, pat):
    """private field by its usual name, else by its type when that is unique"""
    r = rec(prog, clsb)
    fs = {f['n']: prog.t(f['t']) for f in r['f']}
    if name in fs:
        return name
    c = [n for n, t in fs.items() if re.search(pat, t)]
    if len(c) == 1:
        return c[0]
    raise Undecided('no field of %s plays the role of %s' % (clsb, name))
