"""Write and confirm planted changes: seed.py [id-regex] [--no-tests]

Each module of tools/seeds defines SEEDS, a list of
(id, property, {file: [(old, new)]}, needs, what it breaks, body of demo.cpp).
For every one: patch.diff, demo.sh, demo.cpp and meta.json are written to
seeded/<id>; the demonstration is run on /repo as it is and with the change,
and the stable tests with the change.  The change is always undone."""
import os, re, sys, json, subprocess, importlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SEED_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'seeds'))

DEMO_SH = '''#!/bin/bash
# run in the repository: builds and runs demo.cpp against its headers
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s-I include "$D/demo.cpp" %s -o "$T/demo" || exit 3
timeout 60 "$T/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def undo():
    sh('git -C ' + REPO + ' checkout -- .')


def main():
    pat = [a for a in sys.argv[1:] if not a.startswith('-')]
    notests = '--no-tests' in sys.argv
    if sh('git -C ' + REPO + ' status --porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for m in sorted(os.listdir(os.path.join(HERE, 'seeds'))):
        if not m.endswith('.py'):
            continue
        mod = importlib.import_module(m[:-3])
        for ent in mod.SEEDS:
            sid, prop, edits, needs, what, demo = ent[:6]
            opt = ent[6] if len(ent) > 6 else {}
            if pat and not any(re.search(p, sid) for p in pat):
                continue
            d = os.path.join(VERIF, 'seeded', sid)
            os.makedirs(d, exist_ok=True)
            pre = getattr(mod, opt.get('pre', 'PRELUDE'))
            open(d + '/demo.cpp', 'w').write(pre + demo)
            cf = opt.get('cflags', getattr(mod, 'CFLAGS', ''))
            open(d + '/demo.sh', 'w').write(DEMO_SH % (cf, opt.get('libs', getattr(mod, 'LIBS', 'src/adevs.cpp'))))
            os.chmod(d + '/demo.sh', 0o755)
            for f, text in opt.get('files', {}).items():
                open(os.path.join(d, f), 'w').write(text)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
                      open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
            try:
                bad = None
                for f, reps in edits.items():
                    p = os.path.join(REPO, f)
                    s = open(p).read()
                    for old, new in reps:
                        if s.count(old) != 1:
                            bad = 'text found %d times: %s' % (s.count(old), old[:60])
                            break
                        s = s.replace(old, new)
                    open(p, 'w').write(s)
                if bad:
                    print(sid, 'EDIT', bad, flush=True)
                    continue
                open(d + '/patch.diff', 'w').write(sh('git -C ' + REPO + ' diff').stdout)
                r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
                t = ''
                if not notests:
                    try:
                        sh('bash /opt/vp/test.sh /tmp/seed_out.json', timeout=150)
                    except subprocess.TimeoutExpired:
                        pass
                    sh('pkill -f meson; pkill -f /repo/_build/test')
                    got = json.load(open('/tmp/seed_out.json'))
                    miss = stable - set(got['passed'])
                    t = 'tests ok' if not miss else 'TESTS FAIL ' + str(sorted(miss)[:3])
            finally:
                undo()
            good = r0.returncode == 0 and r1.returncode not in (0, 3) and 'FAIL' not in t
            print(sid, 'GOOD' if good else 'BAD', r0.returncode, r1.returncode, t,
                  (r0.stdout + r0.stderr)[-500:] if r0.returncode else '',
                  (r1.stdout + r1.stderr)[-500:] if r1.returncode in (0, 3) else '', flush=True)
            if not good and not notests:
                shutil.rmtree(d)


main()
