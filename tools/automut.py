"""Development aid: mutates one library file line by line and lists the mutants no rule alarms on.
usage: automut.py FILE RULES [-j N] [-l FIRST-LAST] [-k KINDREGEX]"""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = tempfile.mkdtemp(prefix='ams.')
subprocess.check_call('git -C /repo archive HEAD include src | tar x -C ' + SRC, shell=True)

REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), ('&&', '||'), ('||', '&&')]
AR = [(' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), ('++', '--'), ('--', '++'), ('+=', '-='), ('-=', '+='), ('*=', '/='),
      ('true', 'false'), ('false', 'true'), ('std::max', 'std::min'), ('std::min', 'std::max'), ('break;', 'continue;'), ('continue;', 'break;'),
      ('.first', '.second'), ('.second', '.first'), ('.front()', '.back()'), ('begin()', 'end()'), ('push_back', 'push_front'), ('insert', 'erase'),
      ('adevs_inf', 'adevs_zero'), ('adevs_zero', 'adevs_inf'), ('q_trial', 'q'), ('left', 'right'), ('right', 'left'), ('model', 'pin'),
      ('numVars()', 'numEvents()'), ('numEvents()', 'numVars()'), ('[i]', '[0]'), ('[j]', '[0]'), ('.clear()', '.size()')]


def mutants(lines, lo, hi):
    inc = False
    depth = 0
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        if '/*' in s:
            inc = '*/' not in s
            continue
        if inc:
            inc = '*/' not in s
            continue
        if not (lo <= n + 1 <= hi) or not s or s.startswith(('//', '#', 'template', 'class', 'namespace', 'using', 'public', 'private', 'protected', 'struct', 'enum', '*', 'friend', 'typedef', 'assert')):
            continue
        code = re.sub(r'//.*', '', l)

        def put(kind, new, k=n):
            if new != l:
                m = list(lines)
                m[k] = new
                out.append((n + 1, kind, l.strip(), new.strip(), m))
        if code.rstrip().endswith(';') and re.match(r'\s{4,}', l) and not re.match(r'^\s*(return\b|const\b|typename\b|virtual\b|static\b|using\b|[\w:<>,\s\*&]+\s+[\w\*&]+(\s*[=;({\[].*)?;\s*$)', code) or re.match(r'^\s+[\w\.\->:\[\]]+(\+\+|--);', code) or re.match(r'^\s+delete', code):
            put('delete', re.match(r'\s*', l).group(0) + ';\n')
        for a, b in REL + AR:
            if a in ('q_trial', 'left', 'right', 'model', 'true', 'false') and not re.search(r'\b%s\b' % a, code):
                continue
            for m in re.finditer(re.escape(a), code):
                p, q = m.start(), m.end()
                if a in ('<=', '>=') or a == ' < ' or a == ' > ' or True:
                    if a[0].isalpha() and (p and (code[p - 1].isalnum() or code[p - 1] == '_') or q < len(code) and (code[q].isalnum() or code[q] == '_')):
                        continue
                if code[:p].count('"') % 2:
                    continue
                if a in ('<=',) and p and code[p-1] == '<':
                    continue
                put('%s->%s' % (a.strip(), b.strip()), l[:p] + b + l[q:])
        for m in re.finditer(r'(?<![\w.])([01])(?![\w.])', code):
            put('const', l[:m.start()] + ('1' if m.group(1) == '0' else '0') + l[m.end():])
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)(?![\w.])', code):
            put('fconst', l[:m.start()] + '%s' % (float(m.group(1)) + 1.0) + l[m.end():])
        m = re.match(r'^(\s*(?:\} else )?(?:if|while) )\((.*)\) \{\s*$', code)
        if m:
            put('negate', '%s(!(%s)) {\n' % (m.group(1), m.group(2)))
            put('always', '%s(true) {\n' % m.group(1)) if 'if' in m.group(1) else None
            put('never', '%s(false) {\n' % m.group(1))
        m = re.match(r'^(\s*)return (.*);\s*$', code)
        if m and m.group(2) in ('true', 'false'):
            pass
        # swap two call arguments
        for m in re.finditer(r'\(([\w\.\->\*&]+), ([\w\.\->\*&]+)\)', code):
            put('swap', l[:m.start()] + '(%s, %s)' % (m.group(2), m.group(1)) + l[m.end():])
        # swap with the next statement
        if n + 1 < len(lines) and code.rstrip().endswith(';') and lines[n + 1].rstrip().endswith(';') and re.match(r'\s*', l).group(0) == re.match(r'\s*', lines[n + 1]).group(0) and len(re.match(r'\s*', l).group(0)) >= 4 and not re.match(r'\s*(return|static|virtual)', code):
            m = list(lines)
            m[n], m[n + 1] = lines[n + 1], l
            out.append((n + 1, 'order', l.strip(), 'after ' + lines[n + 1].strip(), m))
    return out


def run(f, rules, mu):
    d = tempfile.mkdtemp(prefix='am.')
    try:
        subprocess.check_call(['cp', '-r', SRC + '/include', SRC + '/src', d])
        open(d + '/' + f, 'w').write(''.join(mu[4]))
        und = []
        for r in rules:
            q = subprocess.run(['python3', V + '/sa/run.py', r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, ADEVS_REPO=d, VERIF_EVID=d), cwd=V)
            if q.returncode == 1:
                return 'caught', r
            if q.returncode not in (0, 1):
                return 'invalid', r
            und += [r + ': ' + l.strip()[:150] for l in q.stdout.splitlines() if l.strip().startswith('undecided')]
        return ('undecided' if und else 'MISSED'), und[:2]
    finally:
        shutil.rmtree(d)


def main():
    f, rules = sys.argv[1], sys.argv[2].split(',')
    j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 7
    lo, hi = map(int, sys.argv[sys.argv.index('-l') + 1].split('-')) if '-l' in sys.argv else (1, 10 ** 6)
    ms = mutants(open(SRC + '/' + f).readlines(), lo, hi)
    if '-k' in sys.argv:
        ms = [m for m in ms if re.search(sys.argv[sys.argv.index('-k') + 1], m[1])]
    c = {}
    with ThreadPoolExecutor(j) as ex:
        for mu, (res, w) in zip(ms, ex.map(lambda m: run(f, rules, m), ms)):
            c[res] = c.get(res, 0) + 1
            if res in ('MISSED', 'undecided'):
                print('%s:%d %s [%s]\n    %s\n    %s' % (f.split('/')[-1], mu[0], res, mu[1], mu[2], mu[3]))
                for x in w or []:
                    print('      ' + x)
                sys.stdout.flush()
    print('TOTAL', len(ms), c)
    shutil.rmtree(SRC)


main()
