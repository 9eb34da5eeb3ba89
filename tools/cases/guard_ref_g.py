"""graph: insertions into sets guarded by a redundant test, erasures guarded by a test"""
import re
GR = 'include/adevs/graph.h'
SI = 'include/adevs/simulator.h'
RULES = ['G01', 'G02', 'G03', 'G04', 'S06', 'S02', 'R01', 'R03']
CASES = []
for F in (GR,):
    text = open('/repo/' + F).read()
    src = text.split('\n')
    for i, l in enumerate(src):
        m = re.match(r'^(\s*)([\w.>-]+)\.(insert|erase)\(([^;{}]*)\);$', l)
        if not m:
            continue
        sp, c, op, x = m.groups()
        up = '\n'.join(src[i - 2:i + 1]) if text.count(l + '\n') > 1 else l
        if 'iter' in x:
            continue
        neg = '!' if op == 'insert' else ''
        CASES.append(('g-%s-%d-count' % (op, i + 1), '', [(F, up, up[:len(up) - len(l)] + '%sif (%s%s.count(%s)) { %s.%s(%s); }' % (sp, neg, c, x, c, op, x))]))
        e = '==' if op == 'insert' else '!='
        CASES.append(('g-%s-%d-find' % (op, i + 1), '', [(F, up, up[:len(up) - len(l)] + '%sif (%s.find(%s) %s %s.end()) { %s.%s(%s); }' % (sp, c, x, e, c, c, op, x))]))
