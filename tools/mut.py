"""Development aid: applies textual changes to a scratch copy of the library and runs rules on it.
usage: mut.py FILE.py [id-regex] [-r RULES]     FILE defines CASES = [(id, rules expected to alarm or '', [(file, old, new), ...])]"""
import sys, os, re, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(case, allrules):
    loose = None
    if len(case) == 2:
        cid, ed = case
        want, edits = '', [(f, a, b) for f, l in ed.items() for a, b in l]
        loose = 'bugs' in sys.argv[1]
    else:
        cid, want, edits = case
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.check_call('git -C /repo archive HEAD include src | tar x -C ' + d, shell=True)
        for f, old, new in edits:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return cid, 'BADEDIT ' + old[:60], ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        rules = allrules or want.split()
        out, txt = [], ''
        for r in rules:
            e = dict(os.environ, ADEVS_REPO=d, VERIF_EVID=d)
            q = subprocess.run(['python3', V + '/sa/run.py', r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=V)
            m = re.search(r'(\d+) undecided', q.stdout)
            if 'does not parse' in q.stdout:
                return cid, 'BADEDIT does not parse: ' + (re.findall(r'error: (.*)', q.stdout) or ['?'])[0][:80], ''
            out.append('%s=%s%s' % (r, q.returncode, '/u' + m.group(1) if m and m.group(1) != '0' else ''))
            txt += ''.join('      ' + l.strip()[:200] + '\n' for l in q.stdout.splitlines() if 'VIOLATION' not in l and not re.match(r'^[A-Z]\d\d: ', l))
        bad = []
        if loose is not None:
            hit = any(o.split('=')[1].split('/')[0] == '1' for o in out)
            if loose != hit:
                bad.append('MISSED' if loose else 'FALSE-ALARM')
            rules_ = []
        else:
            rules_ = rules
        for r, o in zip(rules_, out):
            rc = o.split('=')[1].split('/')[0]
            if r in want.split() and rc != '1': bad.append('MISSED ' + r)
            if r not in want.split() and rc != '0': bad.append(('also ' if want else 'FALSE-ALARM ') + r)
        return cid, ' '.join(out) + '  ' + ' '.join(bad), txt
    finally:
        shutil.rmtree(d)

def main():
    spec = importlib.util.spec_from_file_location('c', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else '.'
    rules = sys.argv[sys.argv.index('-r') + 1].split(',') if '-r' in sys.argv else None
    v = '-v' in sys.argv
    cs = [c for c in m.CASES if re.search(pat, c[0])]
    with ThreadPoolExecutor(8) as ex:
        for cid, o, t in ex.map(lambda c: run(c, rules if rules else getattr(m, 'RULES', None)), cs):
            print('%-28s %s' % (cid, o))
            if v or 'MISSED' in o or 'FALSE' in o or '/u' in o: print(t, end='')
main()
