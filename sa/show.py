"""Prints the path summaries of functions (development aid)."""
import sys
from engine import *
import adevs_models as M


def show_facts(facts):
    return ' & '.join(sorted(fmt_lit(a, s) for a, s in facts.items())) or 'true'


def show_trace(tr, ind, prog, out, seen=None):
    for e in tr:
        if e.k == 'loop':
            L = e.x
            print('%sLOOP %s %s over=%s cloc=%s range=%s reg=%s %s' % (
                ind, L.id + ('(partial)' if L.partial else ''), L.kind, fmt(L.over) if L.over else '', fmt(L.cloc) if L.cloc else '',
                [fmt(x) if isinstance(x, tuple) else x for x in L.range] if L.range else '', L.regular, L.why))
            if L.partial:
                continue
            for p in L.paths:
                print('%s  path %s' % (ind, show_facts(p.facts)))
                show_trace(p.trace, ind + '    ', prog, out)
            for p in L.exits:
                print('%s  exit %s' % (ind, show_facts(p.facts)))
                show_trace(p.trace, ind + '    ', prog, out)
                print('%s    out %s' % (ind, fmt(p.out)))
            for loc, (i, t, ups) in L.updates.items():
                print('%s  upd %s: %s -> %s' % (ind, fmt(loc), fmt(i), [fmt(v) if v else None for _, v in ups]))
        else:
            print('%s%s   @%s' % (ind, e, e.line[1] if e.line else '?'))


def main():
    p = Prog(sys.argv[1])
    clsb, name = sys.argv[2], sys.argv[3]
    cfgname = sys.argv[4] if len(sys.argv) > 4 else 'plain'
    want = sys.argv[5] if len(sys.argv) > 5 else None
    for f in p.find(clsb, name):
        if want and want not in f.get('cls', '') + ' '.join(p.t(x['t']) for x in f['params']):
            continue
        print('== %s(%s) %s' % (f['q'], ', '.join(p.t(x['t']) for x in f['params']), p.where(f['l'])))
        eng = Engine(p, M.CONFIGS[cfgname]())
        res = eng.run(f)
        print('%d final states, imp=%s' % (len(res), sorted(set(i for s in res for i in s.imp))))
        for s in res:
            print('-- facts', show_facts(s.facts))
            show_trace(s.trace, '   ', p, None)
            for k, v in s.mem.items():
                if k[0] not in ('ref', 'v', 't'):
                    print('   mem %s = %s' % (fmt(k), fmt(v)))
            print('   out', fmt(s.out) if s.out else None)


main()
