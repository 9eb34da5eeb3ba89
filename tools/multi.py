"""Development aid: several rules in one process.  usage: multi.py R1,R2,...   prints one line per alarm / open obligation"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
import run
from rulelib import *
cx = Ctx()
for pid in sys.argv[1].split(','):
    rep = Rep(pid)
    try:
        run.RULES[pid](cx, rep)
    except Undecided as e:
        rep.und('rule stopped', str(e))
    except Broken as e:
        print('BROKEN', pid, str(e)[:150].replace('\n', ' '))
        continue
    except Exception as e:
        rep.und('rule stopped', 'unexpected form: %s %s' % (type(e).__name__, str(e)[:80]))
    try:
        run.linked(cx, rep, pid)
    except Broken as e:
        print('BROKEN', pid, str(e)[:150].replace('\n', ' '))
    for k, w, at in rep.refuted:
        print('ALARM', pid, k, at.split('/')[-1], w[:90])
    for k, w in rep.open:
        print('OPEN', pid, k, w[:60])
