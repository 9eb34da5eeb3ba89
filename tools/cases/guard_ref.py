"""insertions guarded by a redundant test for membership"""
import re
SI = 'include/adevs/simulator.h'
RULES = ['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07']
src = open('/repo/' + SI).read().split('\n')
CASES = []
text = '\n'.join(src)
for i, l in enumerate(src):
    m = re.match(r'^(\s*)((?:[\w>.-]+->|[\w]+\.)*(?:active|orphaned|receivers|path|activated))\.insert\(([^;]*)\);$', l)
    if not m:
        continue
    sp, c, x = m.groups()
    up = '\n'.join(src[i - 2:i + 1]) if text.count(l + '\n') > 1 else l
    for k, g in (('find', '%s.find(%s) == %s.end()' % (c, x, c)), ('count', '!%s.count(%s)' % (c, x))):
        CASES.append(('guard-%d-%s' % (i + 1, k), '', [(SI, up, up[:-len(l)] + '%sif (%s) { %s.insert(%s); }' % (sp, g, c, x))]))
