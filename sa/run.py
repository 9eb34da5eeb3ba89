"""Decides one property on the current source of /repo."""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from rulelib import *
import importlib

RULES = {}
for m in ('rules_sim', 'rules_out', 'rules_out2', 'rules_graph', 'rules_queue', 'rules_time', 'rules_num', 'rules_loc', 'rules_hyb', 'rules_cv', 'rules_fmi', 'rules_res', 'rules_size', 'rules_null'):
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
        continue
    for n in dir(mod):
        if re.match(r'^[A-Z]\d\d$', n):
            RULES[n] = getattr(mod, n)


# Obligations that two properties share: a violation of the obligation breaks the statement of both.
LINKS = {
    'S01': [('S04', r':active$|^gather:'), ('S03', r'^due:active|^left:|^fresh:inputs'), ('S07', r'^eval:active'), ('S02', r':tL$')],
    'S02': [('S06', r'^add|^remove:unscheduled'), ('Q01', r'.')],
    'S03': [('S07', r'^eval:(output-list|stale-output|inputs-reset)'), ('S04', r'injected')],
    'S04': [('S03', r'^(left|drained|fresh):'), ('S07', r'^withdraw|^eval:inputs|^evaluated|^due-mealy|^worklist'), ('S01', r':bag$'), ('G02', r'.')],
    'S05': [('S03', r'^drained:outputs')],
    'S06': [('G03', r'.'), ('S02', r'^tNext')],
    'S07': [('S04', r'^calculate|^gather|:mealy|:revisable|:receivers-noted|:producer|:evaluated'), ('S03', r'^imminent:mealy|^drained')],
    'Q01': [('Q02', r'.')],
    'N02': [('N03', r'^step:(result|size|failure:state|success)')],
    'N03': [('N02', r'^trap:')],
    'H01': [('H02', r':(advance|limit|event)$')],
    'H02': [('H01', r':trial$|:commit$')],
}


def linked(cx, rep, pid):
    for other, keys in LINKS.get(pid, ()):
        r = Rep(other)
        try:
            RULES[other](cx, r)
        except Undecided as e:
            r.und('rule stopped', str(e))
        except (ArithmeticError, LookupError, TypeError, AttributeError, ValueError, RuntimeError, AssertionError, NameError) as e:
            r.und('rule stopped', 'unexpected form: %s' % type(e).__name__)
        hit = lambda k: re.search(keys, k) is not None
        for x in r.proven:
            k = x.split(': ')[0]
            if hit(k):
                rep.ok('%s/%s' % (other, x))
        for k, what, where in r.refuted:
            if hit(k):
                rep.bad('%s/%s' % (other, k), what, where)
        for what, why in r.open:
            if what == 'rule stopped' or hit(what.split(': ')[0]):
                rep.und('%s/%s' % (other, what), why)
        for f, n in r.functions.items():
            rep.functions.setdefault(f, n)


def known():
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$', l)
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    t = time.time()
    rep = Rep(pid)
    cx = Ctx()
    rc = 0
    try:
        RULES[pid](cx, rep)
    except Undecided as e:
        rep.und('rule stopped', str(e))
    except (ArithmeticError, LookupError, TypeError, AttributeError, ValueError, RuntimeError, AssertionError, NameError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.und('rule stopped', 'unexpected form: %s %s at %s:%d' % (type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno))
    except Broken as e:
        print('ERROR property=%s %s' % (pid, e))
        rc = 2
    if rc == 0:
        try:
            linked(cx, rep, pid)
        except Broken as e:
            print('ERROR property=%s %s' % (pid, e))
            rc = 2
    if rc == 0 and not rep.proven and not rep.refuted and not rep.open:
        print('ERROR property=%s nothing was analysed' % pid)
        rc = 2
    kf = known()
    viol, found = [], []
    for k, what, where in rep.refuted:
        kk = (pid, re.sub(r'\s+', '_', k))
        if kk in kf:
            found.append((kk[1], what, where))
        else:
            viol.append((kk[1], what, where))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    n = len(rep.proven)
    ev = {
        'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source: %s. %d obligations hold on every path of the functions listed, %d are violated, '
                           '%d were left open because the code has a form the rule does not recognise.'
                           % ((RULES[pid].__doc__ or 'path summaries by abstract interpretation, compared with the rule').strip(), n, len(rep.refuted), len(rep.open)),
            'obligations': n + len(rep.refuted) + len(rep.open), 'discharged': n,
            'functions': rep.functions,
            'obligations_held': rep.proven[:400],
            'obligations_open': [{'what': a, 'why': b} for a, b in rep.open[:100]],
            'known_findings': [{'key': a, 'what': b, 'where': c} for a, b, c in found],
        },
        'wall_s': round(time.time() - t, 2),
        'violations': [{'key': k, 'what': w, 'where': at} for k, w, at in viol],
        'assumptions': ASSUME,
    }
    path = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), pid + '.json')
    json.dump(ev, open(path, 'w'), indent=1)
    for k, what, where in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, what))
    for k, what, where in viol:
        print('  %s at %s: %s' % (k, where, what))
    for a, b in rep.open if verbose or True else []:
        print('  undecided: %s (%s)' % (a, b))
    if verbose:
        for a in rep.proven:
            print('  ok:', a)
    print('%s: %d obligations hold, %d violated, %d known, %d undecided, %d functions, %.1fs'
          % (pid, n, len(viol), len(found), len(rep.open), len(rep.functions), time.time() - t))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    sys.exit(rc)


ASSUME = [
    'user callbacks (transition, output and time advance functions, event listeners) do not reach private members of the library',
    'the C++ standard library containers and smart pointers behave as the standard says',
    'templates are analysed at the instantiations in extract/tu_*.cpp; the library code does not branch on the value type',
]

if __name__ == "__main__":
    main()
