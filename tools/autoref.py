"""Development aid: behaviour-keeping edits of one library file, line by line; lists those on which a rule raises an alarm.
usage: autoref.py FILE RULES [-j N] [-l FIRST-LAST] [-k KINDREGEX]"""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = tempfile.mkdtemp(prefix='arf.')
subprocess.check_call('git -C /repo archive HEAD include src | tar x -C ' + SRC, shell=True)
PATH = r'[A-Za-z_][\w]*(?:(?:->|\.)\w+|\[[\w\s+*-]+\])*'


def split2(e, op):
    """the operands of the only top-level operator of the expression, if it is op"""
    d, at = 0, []
    i = 0
    while i < len(e):
        ch = e[i]
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif d == 0:
            if e[i:i + 2] in ('&&', '||', '==', '!=', '<=', '>=', '->', '<<', '>>', '::'):
                if e[i:i + 2] in ('->', '::'):
                    i += 2
                    continue
                at.append((i, e[i:i + 2]))
                i += 2
                continue
            if ch in '<>?':
                at.append((i, ch))
        i += 1
    if len(at) == 1 and at[0][1] == op:
        return e[:at[0][0]].strip(), e[at[0][0] + len(op):].strip()
    return None


def block_end(lines, n):
    """line on which the block opened at the end of line n is closed"""
    d = 0
    for k in range(n, len(lines)):
        c = re.sub(r'//.*', '', lines[k])
        c = re.sub(r'"[^"]*"', '', c)
        if k == n:
            c = c[c.rindex('{'):]
        for j, ch in enumerate(c):
            d += ch == '{'
            d -= ch == '}'
            if d == 0:
                return k
    return None


def edits(lines, lo, hi):
    inc = False
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        if '/*' in s:
            inc = '*/' not in s
            continue
        if inc:
            inc = '*/' not in s
            continue
        if not (lo <= n + 1 <= hi) or not s or s.startswith(('//', '#', 'template', 'class', 'namespace', 'using', 'public', 'private', 'protected', 'struct', 'enum', '*', 'friend', 'typedef', 'assert')):
            continue
        code = re.sub(r'//.*', '', l).rstrip()
        sp = re.match(r'\s*', l).group(0)
        prev = lines[n - 1].strip() if n else ''
        # a statement of its own: the line before ends a statement or opens a block
        whole = code.endswith(';') and re.search(r'[;{}:]$|^//|^$', re.sub(r'//.*', '', prev).strip()) and not prev.endswith(',')
        blocky = not re.match(r'(if|else|for|while)\b.*[^{;]$', prev)

        def put(kind, new, upto=n, tail=()):
            m = list(lines)
            m[n:upto + 1] = [new] + list(tail)
            if m != lines:
                out.append((n + 1, kind, s, new.strip(), m))
        if len(sp) < 4:
            continue
        if whole and blocky:
            m = re.match(r'^(%s)\.clear\(\);$' % PATH, code.strip())
            if m:
                put('clear-guard', '%sif (!%s.empty()) { %s.clear(); }\n' % (sp, m.group(1), m.group(1)))
                put('clear-loop', '%swhile (!%s.empty()) { %s.erase(%s.begin()); }\n' % (sp, m.group(1), m.group(1), m.group(1)))
            m = re.match(r'^(%s) = (.*);$' % PATH, code.strip())
            if m:
                a, b = m.groups()
                put('assign-temp', '%s{ auto value_ = %s; %s = value_; }\n' % (sp, b, a))
                put('assign-ctemp', '%s{ const auto value_(%s); %s = value_; }\n' % (sp, b, a))
                if re.match(r'^[\w.>\[\]\s+*/-]+$', b):
                    put('assign-guard', '%sif (%s != %s) { %s = %s; }\n' % (sp, a, b, a, b))
                put('assign-ref', '%s{ auto &place_ = %s; place_ = %s; }\n' % (sp, a, b))
            m = re.match(r'^(%s) ([+*-])= (.*);$' % PATH, code.strip())
            if m:
                put('compound', '%s%s = %s %s (%s);\n' % (sp, m.group(1), m.group(1), m.group(2), m.group(3)))
            m = re.match(r'^(%s)(\+\+|--);$' % PATH, code.strip()) or None
            if m:
                put('incr', '%s%s %s= 1;\n' % (sp, m.group(1), m.group(2)[0]))
            m = re.match(r'^delete(\[\])? (%s);$' % PATH, code.strip())
            if m:
                put('delete-guard', '%sif (%s != nullptr) { %s }\n' % (sp, m.group(2), code.strip()))
                put('delete-null', '%s%s %s = nullptr;\n' % (sp, code.strip(), m.group(2)))
            m = re.match(r'^return (.+);$', code.strip())
            if m:
                put('return-temp', '%sauto result_ = %s;\n%sreturn result_;\n' % (sp, m.group(1), sp))
                put('return-paren', '%sreturn (%s);\n' % (sp, m.group(1)))
            m = re.match(r'^(?!return|delete|throw|break|continue|goto|case|default|const|auto|static|typename|else|using)(%s)\((.*)\);$' % PATH, code.strip())
            if m:
                put('lambda', '%s{ auto doit_ = [&]() { %s }; doit_(); }\n' % (sp, code.strip()))
                put('do-once', '%sdo { %s } while (false);\n' % (sp, code.strip()))
                args = m.group(2)
                if args and re.match(r'^[\w.>*()\s-]+$', args) and args.count('(') == args.count(')'):
                    put('arg-temp', '%s{ const auto &given_ = %s; %s(given_); }\n' % (sp, args, m.group(1)))
        m = re.match(r'^if \((.*)\) \{$', code.strip())
        if m and n and not prev.endswith('else'):
            e = m.group(1)
            put('if-const', '%sconst bool test_%d = static_cast<bool>(%s);\n%sif (test_%d) {\n' % (sp, n, e, sp, n))
            put('if-not', '%sif (!(%s)) {} else {\n' % (sp, e))
            k = block_end(lines, n)
            if k and lines[k].strip() == '}':
                body = lines[n + 1:k]
                if not any(re.search(r'\b(break|continue)\b', x) for x in body):
                    put('if-while', '%sfor (bool once_ = true; once_ && (%s); once_ = false) {\n' % (sp, e))
                ab = split2(e, '&&')
                if ab:
                    put('if-nest', '%sif (%s) { if (%s) {\n' % (sp, ab[0], ab[1]), k, body + [sp + '} }\n'])
            elif k and lines[k].strip() == '} else {':
                k2 = block_end(lines, k)
                if k2 and lines[k2].strip() == '}':
                    put('if-swap', '%sif (!(%s)) {\n' % (sp, e), k2, lines[k + 1:k2] + [sp + '} else {\n'] + lines[n + 1:k] + [sp + '}\n'])
            for op, f in (('==', '!(%s != %s)'), ('!=', '!(%s == %s)'), ('<', '!(%s >= %s)'), ('<=', '!(%s > %s)'), ('>', '!(%s <= %s)'), ('>=', '!(%s < %s)')):
                ab = split2(e, op)
                if ab:
                    put('if-neg-op', '%sif (%s) {\n' % (sp, f % ab))
                    r = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                    put('if-flip', '%sif (%s %s %s) {\n' % (sp, ab[1], r, ab[0]))
        m = re.match(r'^while \((.*)\) \{$', code.strip())
        if m:
            put('while-for', '%sfor (; %s;) {\n' % (sp, m.group(1)))
            put('while-break', '%swhile (true) { if (!(%s)) break;\n' % (sp, m.group(1)))
            k = block_end(lines, n)
            if k and lines[k].strip() == '}' and not any(re.search(r'\b(break|continue)\b', x) for x in lines[n + 1:k]):
                put('while-do', '%sif (%s) do {\n' % (sp, m.group(1)), k, lines[n + 1:k] + ['%s} while (%s);\n' % (sp, m.group(1))])
        m = re.match(r'^for \((?:const )?(?:auto|[\w:<>, ]+?) ?(&|\*)?(\w+) : (.*)\) \{$', code.strip())
        if m:
            amp = '&' if m.group(1) == '&' else ''
            put('each-iter', '%sfor (auto it_ = (%s).begin(); it_ != (%s).end(); ++it_) { auto %s%s = *it_;\n' % (sp, m.group(3), m.group(3), amp, m.group(2)))
            put('each-while', '%sfor (auto it_ = (%s).begin(), end_ = (%s).end(); it_ != end_; it_++) { auto &&%s = *it_;\n' % (sp, m.group(3), m.group(3), m.group(2)))
            put('each-ref', '%sfor (auto &%s : %s) {\n' % (sp, m.group(2), m.group(3)))
            put('each-cref', '%sfor (const auto &%s : %s) {\n' % (sp, m.group(2), m.group(3)))
        m = re.match(r'^for \((int|unsigned int|unsigned|size_t|std::size_t) (\w+) = (.*?); (.*?); (\+\+\w+|\w+\+\+)\) \{$', code.strip())
        if m:
            t, i, a, c, inc_ = m.groups()
            k = block_end(lines, n)
            if k and lines[k].strip() == '}' and not any(re.search(r'\bcontinue\b', x) for x in lines[n + 1:k]):
                put('for-while', '%s{ %s %s = %s; while (%s) {\n' % (sp, t, i, a, c), k, lines[n + 1:k] + ['%s    %s += 1; } }\n' % (sp, i)])
            mm = re.match(r'^%s < (.*)$' % i, c)
            if mm:
                put('for-ne', '%sfor (%s %s = %s; %s <= %s - 1; ++%s) {\n' % (sp, t if t == 'int' else 'int', i, a, i, mm.group(1), i)) if t == 'int' else None
                put('for-flip', '%sfor (%s %s = %s; %s > %s; %s) {\n' % (sp, t, i, a, mm.group(1), i, inc_))
        if re.match(r'^(if|for|while) \(.*\) \{$', code.strip()):
            k = block_end(lines, n)
            if k and lines[k].strip() in ('}', '} else {') and not any(re.search(r'\b(break|continue|return)\b', x) for x in lines[n + 1:k]):
                put('block-lambda', l, k, [sp + '    auto body_ = [&]() {\n'] + lines[n + 1:k] + [sp + '    };\n', sp + '    body_();\n', lines[k]])
        # two neighbouring statements that touch different things are exchanged
        if whole and blocky and n + 1 < len(lines):
            nx = re.sub(r'//.*', '', lines[n + 1]).rstrip()
            ma = re.match(r'^(%s) = ([\w.>\[\]\s+*/-]+);$' % PATH, code.strip())
            mb = re.match(r'^(%s) = ([\w.>\[\]\s+*/-]+);$' % PATH, nx.strip())
            if ma and mb:
                ids = lambda t: set(re.findall(r'\w+', t))
                la, lb = re.findall(r'\w+', ma.group(1))[-1], re.findall(r'\w+', mb.group(1))[-1]
                if la not in ids(nx) and lb not in ids(code) and '*' not in ma.group(1):
                    put('exchange', lines[n + 1], n + 1, [l])
    return out


def run(job):
    fn, rules, (line, kind, old, new, lines) = job
    d = tempfile.mkdtemp(prefix='arx.')
    try:
        shutil.copytree(SRC + '/include', d + '/include')
        shutil.copytree(SRC + '/src', d + '/src')
        open(os.path.join(d, fn), 'w').write(''.join(lines))
        q = subprocess.run(['timeout', '600', 'python3', V + '/tools/multi.py', rules], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, ADEVS_REPO=d, VERIF_EVID=d), cwd=V)
        return line, kind, old, new, q.stdout, q.returncode
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv
    fn, rules = a[1], a[2]
    j = int(a[a.index('-j') + 1]) if '-j' in a else 8
    lo, hi = map(int, a[a.index('-l') + 1].split('-')) if '-l' in a else (1, 10 ** 6)
    kind = a[a.index('-k') + 1] if '-k' in a else '.'
    lines = open(os.path.join(SRC, fn)).readlines()
    es = [e for e in edits(lines, lo, hi) if re.search(kind, e[1])]
    nb = na = no = 0
    with ThreadPoolExecutor(j) as ex:
        for line, k, old, new, txt, rc in ex.map(run, [(fn, rules, e) for e in es]):
            if 'BROKEN' in txt:
                nb += 1
                continue
            al = [x for x in txt.splitlines() if x.startswith('ALARM')]
            op = [x for x in txt.splitlines() if x.startswith('OPEN')]
            if rc or al:
                na += 1
                print('== %d %s | %s | %s%s' % (line, k, old[:70], new[:90].replace('\n', ' '), ' RC %d %s' % (rc, txt[-200:]) if rc else ''))
                for x in al[:4]:
                    print('     ' + x)
            elif op:
                no += 1
                print('-- %d %s | %s | %s' % (line, k, new[:70].replace('\n', ' '), op[0][:110]))
            sys.stdout.flush()
    print('%d edits, %d do not parse, %d with alarms, %d with open obligations' % (len(es), nb, na, no))
    shutil.rmtree(SRC)


main()
