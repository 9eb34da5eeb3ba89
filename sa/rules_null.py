"""R03: pointers that may be null.

A field may be null when a constructor, or any other member, leaves a null pointer in it; the result of a call may be
null when some implementation returns a null pointer.  Wherever such a pointer is followed the conditions on the way
there have to say that it is not null; nor may a pointer be followed where the conditions say that it is.
"""
import re
from rulelib import *

CFG = {'adevs::Simulator': ('core', 'sim'), 'adevs::Graph': ('core', 'graph'), 'adevs::Coupled': ('core', 'graph')}


def line(n):
    l = n.get('l')
    return tuple(l) if isinstance(l, list) else l


class Nulls:
    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep
        self.fields = {}       # (class, field) -> set of places that leave null in it
        self.calls = set()
        self.params = {}       # function -> the sets of parameters that some call passes null for
        self.group = {}        # (class, field) -> fields that are null together with it
        self.hits = {}
        self.sites = set()
        self.mode = None
        self.needs = {}

    # ---- what may be null
    def returns_null(self, p):
        for (b, n), fs in p.byq.items():
            if not b.startswith('adevs::'):
                continue
            for f in fs:
                if f.get('body') is not None:
                    self.null_arguments(f['body'])
                if f.get('body') is not None and '*' in str(p.t(f.get('rt')) if f.get('rt') is not None else '*') and self.nullret(f['body']):
                    self.calls.add(n)

    def null_arguments(self, n):
        """the parameters some call passes a null pointer for"""
        if isinstance(n, dict):
            if n.get('k') == 'call' and isinstance(n.get('f'), dict):
                nulls = set()
                for i, a in enumerate(n.get('args') or ()):
                    while isinstance(a, dict) and a.get('k') in ('cast', 'load'):
                        a = a.get('e')
                    if isinstance(a, dict) and a.get('k') in ('null', 'nullptr'):
                        nulls.add(i)
                if nulls:
                    self.params.setdefault(n['f'].get('n'), set()).add(frozenset(nulls))
            for x in n.values():
                self.null_arguments(x)
        elif isinstance(n, list):
            for x in n:
                self.null_arguments(x)

    def callees(self, n, out, f):
        if isinstance(n, dict):
            c = n.get('f')
            if n.get('k') in ('call', 'ref', 'fref') and isinstance(c, dict):
                out.setdefault((c.get('clsb'), c.get('n')), []).append(f)
            for x in n.values():
                self.callees(x, out, f)
        elif isinstance(n, list):
            for x in n:
                self.callees(x, out, f)

    def handed(self, n, out, arg):
        """fields of this object passed as arguments"""
        if isinstance(n, dict):
            if arg and n.get('k') == 'mem' and isinstance(n.get('b'), dict) and n['b'].get('k') == 'this':
                out.setdefault(n.get('f'), line(n))
            for k, x in n.items():
                self.handed(x, out, k == 'args' or arg and k in ('e',) and n.get('k') in ('load', 'cast'))
        elif isinstance(n, list):
            for x in n:
                self.handed(x, out, arg)

    def nullret(self, n):
        if isinstance(n, dict):
            if n.get('k') == 'return' or n.get('k') == 'ret':
                e = n.get('e')
                while isinstance(e, dict) and e.get('k') in ('cast', 'load'):
                    e = e.get('e')
                if isinstance(e, dict) and e.get('k') in ('null', 'nullptr'):
                    return True
            return any(self.nullret(x) for x in n.values())
        if isinstance(n, list):
            return any(self.nullret(x) for x in n)
        return False

    def follow(self, eng, s, v, n):
        if self.mode is None or v is None or v[0] in ('this', 'addr', 'new', 'newarr'):
            return
        fn = s.fr.fn if s.fr else None
        self.callsite(eng, s, n)
        where = (line(n), fn)
        self.sites.add((where, fmt(v)[:60]))
        d = True if v == NULL else decide(s.facts, lit_eq(v, NULL))
        if d is True:
            self.hits.setdefault(('null', line(n)), (v, fn, self.mode))
            return
        if d is False:
            return
        if any(b and a[0] == 'eq' and v in a[1:3] and NULL not in a[1:3] for a, b in s.facts.items()):
            return          # the same pointer as another one: judged by that one
        if s.fr and s.fr.fn == self.fid and self.maybe(v, s):
            self.hits.setdefault(('maybe', line(n)), (v, fn, self.mode))

    def callsite(self, eng, s, n):
        """a private member that relies on a field being set is called only where it is"""
        if n.get('k') != 'call' or not self.needs:
            return
        c = n.get('f') or {}
        if not isinstance(c, dict):
            return
        k = (c.get('clsb'), c.get('n'))
        if k not in self.needs or (self.cls, self.mode[2]) in self.needs:
            return
        if not s.fr or s.fr.fn != self.fid:
            return
        for fld in self.needs[k]:
            ok = False
            if self.cls == k[0]:
                v = eng.read(s, ('f', ('this',), fld))
                ok = v != NULL and (v[0] in ('new', 'addr', 'p') or decide(s.facts, lit_eq(v, NULL)) is False)
            self.sites.add(((line(n), None), fld))
            if not ok:
                self.hits.setdefault(('call', line(n)), (('str', '%s needs %s' % (k[1], fld)), None, self.mode))

    def fieldof(self, v):
        if v[0] == 'ld' and v[1][0] == 'f' and isinstance(v[1][2], str):
            return v[1]
        return None

    def maybe(self, v, s):
        l = self.fieldof(v)
        if l is not None:
            fs = [k for k in self.fields if k[1] == l[2] and l[1] == ('this',) and k[0] == self.cls]
            if not fs:
                return False
            for k in fs:
                sib = self.group.get(k, ())
                for a, sg in s.facts.items():
                    if a[0] == 'eq' and NULL in a[1:] and not sg:
                        o = a[1] if a[2] == NULL else a[2]
                        m = self.fieldof(o)
                        if m is not None and m[1] == l[1] and m[2] in sib:
                            return False
            return True
        if v[0] == 'ret':
            return v[1] in self.calls
        if v[0] == 'p' and len(v) > 2:
            known = {i for i in range(8) for a, sg in s.facts.items() if not sg and a[0] == 'eq' and NULL in a[1:]
                     for o in a[1:] if o[0] == 'p' and len(o) > 2 and o[2] == i}
            return any(v[2] in pat and not (pat & known) for pat in self.params.get(self.mode[2], ()))
        return False

    # ---- runs
    def functions(self):
        for tu in ('core', 'solvers'):
            p = self.cx.prog(tu)
            for (b, n), fs in sorted(p.byq.items()):
                if not b.startswith('adevs::') or tu == 'solvers' and b in self.seen:
                    continue
                for f in fs:
                    if f.get('body') is None or f.get('del'):
                        continue
                    yield tu, p, b, n, f
            if tu == 'core':
                self.seen = {b for b, n in p.byq if any(f.get('body') is not None for f in p.byq[(b, n)])}

    def cfg(self, tu, b):
        name = CFG.get(b, (tu, 'solver' if tu == 'solvers' else 'plain'))[1]
        c = M.CONFIGS[name]()
        c.deref = self.follow
        return c

    def run(self):
        cx, rep = self.cx, self.rep
        self.seen = set()
        todo, summ = list(self.functions()), {}
        for tu in ('core', 'solvers'):
            self.returns_null(cx.prog(tu))
        self.calls -= {'find', 'end', 'begin'}
        # null left in fields
        callers = {}
        for tu, p, b, n, f in todo:
            self.callees(f['body'], callers, f)
            for i in f.get('inits') or ():
                self.callees(i, callers, f)
        writes = {}
        for tu, p, b, n, f in todo:
            if f.get('isdtor'):
                continue
            if f.get('acc') == 2 and not f.get('isctor') and all(g.get('isdtor') for g in callers.get((b, n), ())):
                continue       # part of a destructor
            self.cls, self.mode = b, None
            try:
                s = cx.summary(tu, f, 'null', cfg=self.cfg(tu, b))
            except Undecided as e:
                rep.und('%s:%s' % (b.split('::')[-1], n), str(e)[:100])
                continue
            summ[(tu, f['id'])] = s
            for st in s.normal():
                for l, v in st.mem.items():
                    if l[0] == 'f' and l[1] == ('this',) and isinstance(l[2], str) and v is not None:
                        writes.setdefault((b, l[2]), []).append((f['id'], id(st), v == NULL))
                        if v == NULL:
                            self.fields.setdefault((b, l[2]), set()).add(s.where)
        for k in self.fields:
            for k2 in self.fields:
                if k2 != k and k2[0] == k[0] and {x[:2]: x[2] for x in writes[k]} == {x[:2]: x[2] for x in writes[k2]}:
                    self.group.setdefault(k, set()).add(k2[1])
        # pointers that are never anything but null
        always = {k for k, ws in writes.items() if all(x[2] for x in ws)}
        for tu, p, b, n, f in todo:
            used = {}
            self.handed(f['body'], used, False)
            for fld, ln in used.items():
                if (b, fld) in always:
                    rep.bad('%s:%s:%s' % (b.split('::')[-1], n, fld), 'fails: %s is handed on and is never anything but null' % fld, p.where(ln))
        # where pointers are followed
        self.needs = {}
        self.follow_all(todo, summ, False)
        self.needs = self.asked
        self.follow_all(todo, summ, True)
        rep.notes.append('%d places' % len(self.sites))

    def follow_all(self, todo, summ, final):
        cx, rep = self.cx, self.rep
        self.asked = {}
        for tu, p, b, n, f in todo:
            self.cls, self.mode, self.fid = b, (tu, b, n), f['id']
            self.hits = {}
            try:
                eng = Engine(p, self.cfg(tu, b))
                eng.run(f)
            except Exception as e:
                if final and (tu, f['id']) in summ:
                    rep.und('%s:%s' % (b.split('::')[-1], n), str(e)[:100])
                continue
            for (k, ln), (v, fn, m) in self.hits.items():
                l = self.fieldof(v)
                if k == 'maybe' and f.get('acc') == 2 and l is not None and l[1] == ('this',):
                    self.asked.setdefault((b, n), set()).add(l[2])
            if not final:
                continue
            rep.functions[f['q'] + '(' + ','.join(p.t(x['t']) for x in f.get('params', [])) + ')'] = {'at': p.where(f['l'])}
            short = b.split('::')[-1]
            bad = False
            for (k, ln), (v, fn, m) in self.hits.items():
                l = self.fieldof(v)
                if k == 'maybe' and (b, n) in self.needs and l is not None and l[2] in self.needs[(b, n)]:
                    continue
                bad = True
                key = '%s:%s:%s' % (short, n, re.sub(r'[^A-Za-z0-9_>.-]+', '_', fmt(v) if k != 'call' else v[1])[:40])
                if k == 'null':
                    rep.bad(key, 'fails: a null pointer is not followed (%s is null there)' % fmt(v)[:60], p.where(ln))
                elif k == 'call':
                    rep.bad(key, 'fails: a member that needs a field to be set is called only where it is (%s)' % v[1], p.where(ln))
                else:
                    rep.bad(key, 'fails: a pointer that may be null is tested before it is followed (%s)' % fmt(v)[:60], p.where(ln))
            if not bad:
                rep.ok('%s:%s: every pointer followed is known not to be null' % (short, n))


def R03(cx, rep):
    """nullness analysis: fields and results that may be null, and the conditions under which they are followed"""
    n = Nulls(cx, rep)
    n.run()
    rep.proven[:] = list(dict.fromkeys(rep.proven))
    if len(n.sites) < 10:
        raise Broken('no pointers are followed')
