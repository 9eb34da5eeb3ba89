"""Which checks alarm on which planted change: catch.py [id-regex] [--all]
Works on scratch copies of the library; --all runs every rule, else only the one of the change's property."""
import os, re, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = [a for a in sys.argv[1:] if not a.startswith('-')]
rules = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(sid):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
    d = tempfile.mkdtemp(prefix='catch.')
    try:
        subprocess.check_call('git -C /repo archive HEAD include src | tar x -C ' + d, shell=True)
        subprocess.check_call(['patch', '-s', '-p1', '-d', d, '-i', '%s/seeded/%s/patch.diff' % (V, sid)])
        out = []
        if '--all' in sys.argv:
            q = subprocess.run(['python3', V + '/tools/multi.py', ','.join(rules)], capture_output=True, text=True, cwd=V, env=dict(os.environ, ADEVS_REPO=d, VERIF_EVID=d))
            hit = {l.split()[1] for l in q.stdout.splitlines() if l.startswith('ALARM ')}
            return sid, meta['property'], [r for r in rules if r in hit]
        for r in [meta['property']]:
            q = subprocess.run(['python3', V + '/sa/run.py', r], capture_output=True, text=True, cwd=V, env=dict(os.environ, ADEVS_REPO=d, VERIF_EVID=d))
            if q.returncode:
                out.append(r + ('' if q.returncode == 1 else '(rc%d)' % q.returncode))
        return sid, meta['property'], out
    finally:
        shutil.rmtree(d)


ids = sorted(x for x in os.listdir(V + '/seeded') if not pat or any(re.search(p, x) for p in pat))
with ThreadPoolExecutor(6) as ex:
    for sid, p, out in ex.map(one, ids):
        print('| %s | %s | %s |' % (sid, p, ' '.join(out) or 'none') + ('' if p in out else '   <-- MISSED'))
