#!/usr/bin/env python3
"""Small random mutations of the headers, to find gaps in the checks.
 mutate.py find SEED COUNT OUT.jsonl [file ...]   mutants that compile and pass the repository's tests
 mutate.py try OUT.jsonl LOG [id ...]             run checks on them until one reports a violation"""
import sys, os, re, random, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = 'algebra algorithm cga crc dfa engine entity expr format geometric_algebra null_algebra numeric pga pga2 stack tuple vga'.split()
INC = '-std=gnu++17 -w -DGAL_DEBUG -DDOCTEST_CONFIG_SUPER_FAST_ASSERTS -DDOCTEST_CONFIG_USE_STD_HEADERS -DDOCTEST_CONFIG_INCLUDE_TYPE_TRAITS'
TESTS = 'test_algebra test_algorithm test_vga test_dfa test_cga test_pga'.split()
SWAP = {'==': ['!='], '!=': ['=='], '<': ['<='], '>': ['>='], '<=': ['<'], '>=': ['>'], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '*': ['/', '+'], '/': ['*'],
        '+=': ['-=', '='], '-=': ['+=', '='], '*=': ['='], '/=': ['*='], '&': ['|'], '|': ['&'], '^': ['|'], '>>': ['<<'], '<<': ['>>'], '++': ['--'], '--': ['++'], '!': ['']}
WORD = {'true': 'false', 'false': 'true', 'sin': 'cos', 'cos': 'sin', 'lhs': 'rhs', 'rhs': 'lhs', 'num': 'den', 'den': 'num', 'begin': 'end', 'i': 'j', 'j': 'i', 'x': 'y', 'y': 'z', 'z': 'x',
        'one': 'zero', 'zero': 'one', 'break': 'continue', 'lhs_index': 'rhs_index', 'rhs_index': 'lhs_index', 'a': 'b', 'b': 'a', 'mx': 'my', 'dx': 'dy', 'first': 'second', 'second': 'first'}

rng_k = random.Random(1)

def sites(f):
    out, debug, block = [], 0, False
    for n, l in enumerate(open(f'{REPO}/public/gal/{f}.hpp').read().split('\n')):
        s = l.strip()
        if s.startswith('#'):
            if 'GAL_DEBUG' in s and s.startswith('#ifdef'): debug += 1
            elif debug and s.startswith('#if'): debug += 1
            elif debug and s.startswith('#endif'): debug -= 1
            continue
        if (f == 'pga2' and 195 < n < 275 or 'inline mv<A, 0, 1, 1> e{' in s): continue      # not usable
        if debug or not s or s.startswith('//') or s.startswith('template') or s.startswith('static_assert') or s.startswith('using') or 'operator' in s: continue
        code = l.split('//')[0]
        if os.environ.get('RARE'):      # changes that need a large size or one particular value
            for m in re.finditer(r'(?:!=|<) ([A-Za-z_][\w.]*(?:->\w+|::\w+)*(?:\(\))?);', code):
                x = m.group(1)
                for k in (7, 11): out.append((n, m.start(1), m.end(1), f'({x} > {k} ? {x} - 1 : {x})'))
            for m in re.finditer(r'(?<![\w.>])((?:\w+(?:\.|->))+(?:element|count|id|mon_offset|ind_offset|ex|checksum|size|offset))\b(?! *(=[^=]|\(|\+\+|\+=|-=))', code):
                x = m.group(1); k = rng_k.choice((5, 6, 9, 12))
                out.append((n, m.start(1), m.end(1), f'({x} == {k} ? {x} ^ 1 : {x})'))
            m = re.match(r'\s*(?:else )?if (?:constexpr )?\((.*)\)\s*$', code)
            if m and m.group(1).count('(') == m.group(1).count(')'):
                for v in ('count', 'size()', 'dim', 'N', 'grade', 'id'):
                    out += [(n, m.start(1), m.end(1), f'({m.group(1)}) && {v} != 6'), (n, m.start(1), m.end(1), f'({m.group(1)}) || {v} == 6')]
            continue
        for m in re.finditer(r'==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|>>|<<|\+\+|--|->|[<>+\-*/&|^!]', code):
            t = m.group()
            if t in ('<', '>', '&', '*', '-', '+', '|', '^', '/', '>>', '<<') and not (code[m.start()-1:m.start()] == ' ' and code[m.end():m.end()+1] == ' '):
                if t == '-' and re.search(r'(return|[=(,?:{])\s*$', code[:m.start()]): out.append((n, m.start(), m.end(), ''))
                continue
            for k in SWAP.get(t, []): out.append((n, m.start(), m.end(), k))
        for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.])', code):
            v = int(m.group()); out += [(n, m.start(), m.end(), str(v + 1))] + ([(n, m.start(), m.end(), str(v - 1))] if v else [])
        for m in re.finditer(r'\b[A-Za-z_]\w*\b', code):
            if m.group() in WORD: out.append((n, m.start(), m.end(), WORD[m.group()]))
        m = re.match(r'\s*(?:else )?if (?:constexpr )?\((.*)\)\s*$', code)
        if m and m.group(1).count('(') == m.group(1).count(')'):
            out += [(n, m.start(1), m.end(1), 'true'), (n, m.start(1), m.end(1), 'false')]
        m = re.match(r'\s*(?!return|constexpr|auto |const |[A-Za-z_:<>]+\s+[A-Za-z_]+\s*(=|;|\{))(\S.*;)\s*$', code)
        if m and code.count('(') == code.count(')'): out.append((n, m.start(2), m.end(2), ';'))
    return [(f,) + o for o in out]

def apply(mu, w):
    f, n, a, b, new = mu
    p = f'{w}/public/gal/{f}.hpp'
    L = open(p).read().split('\n'); L[n] = L[n][:a] + new + L[n][b:]
    open(p, 'w').write('\n'.join(L))

def sh(c, t=300):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t).returncode
    except subprocess.TimeoutExpired: return 99

def survives(k, mu, base):
    w = f'/tmp/mut-{k}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/public')
    shutil.copytree(REPO + '/public/gal', w + '/public/gal'); apply(mu, w)
    try:
        for t in TESTS:
            if sh(f'g++ {INC} -I{w}/public {base["inc"]} -c {REPO}/test/{t}.cpp -o {w}/{t}.o'): return False
        if sh(f'g++ {base["main"]} {w}/*.o -o {w}/t'): return False
        return sh(f'timeout 60 {w}/t') == 0
    finally: shutil.rmtree(w, ignore_errors=True)

def find(seed, count, out, files):
    rng = random.Random(seed)
    per = {f: sites(f) for f in files}
    allm = [m for f in files for m in per[f]]
    print({f: len(v) for f, v in per.items()}, flush=True)
    pick = rng.sample(allm, min(count, len(allm)))
    inc = '-I/opt/vp/doctest-shim -I/opt/vp/doctest-shim/doctest -I/repo/_build/_deps'
    g = subprocess.run("find /opt/vp -name doctest.h | head -1", shell=True, capture_output=True, text=True).stdout.strip()
    inc = f'-I{os.path.dirname(g)} -I{os.path.dirname(os.path.dirname(g))}'
    os.makedirs('/tmp/mut-base', exist_ok=True)
    assert sh(f'g++ {INC} -I{REPO}/public {inc} -c {REPO}/test/test.cpp -o /tmp/mut-base/main.o') == 0
    base = dict(inc=inc, main='/tmp/mut-base/main.o')
    with open(out, 'a') as o, ThreadPoolExecutor(8) as ex:
        for (k, mu), ok in zip(enumerate(pick), ex.map(lambda p: survives(p[0], p[1], base), list(enumerate(pick)))):
            if ok: o.write(json.dumps(dict(id=f's{seed}-{k}', mu=mu)) + '\n'); o.flush()

ORDER = dict(algebra='C01 C02 C04 C20 C08 C06 C12 C05 C03 C07 C17 C13', algorithm='C19 C02 C04 C18', cga='C12 C10 C18', crc='C19 C03 C02', dfa='C03 C08 C13 C02 C07 C20 C12', engine='C02 C13 C08 C03 C12 C14 C17 C20 C15 C06 C07',
             entity='C18 C13 C14 C10 C02', expr='C02 C03 C08 C06 C07 C13 C05 C12 C20', format='C18', geometric_algebra='C01 C06 C12 C02', null_algebra='C12 C02', numeric='C05 C19 C08 C02 C17',
             pga='C10 C11 C09 C18 C14', pga2='C10 C11 C18', stack='C19 C02', tuple='C19 C13', vga='C10 C11 C18 C02')
def trial(path, log, ids):
    done = {l.split()[0] for l in open(log)} if os.path.exists(log) else set()
    for l in open(path):
        d = json.loads(l)
        if d['id'] in done or (ids and d['id'] not in ids): continue
        w = '/tmp/mut-try-' + d['id']; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/public')
        shutil.copytree(REPO + '/public/gal', w + '/public/gal')
        f, n, a, b, new = d['mu']; old = open(f'{w}/public/gal/{f}.hpp').read().split('\n')[n]
        apply(d['mu'], w); by = ''
        for c in ORDER[f].split():
            r = subprocess.run([sys.executable, V + '/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_STOP='1'))
            if r.returncode: by = c + ('' if r.returncode == 1 else f'(rc{r.returncode})'); break
        open(log, 'a').write(f'{d["id"]} {by or "MISSED"} {f}:{n+1} [{old[a:b]} -> {new}] {old.strip()[:110]}\n')
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == 'find': find(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:] or FILES)
    else: trial(sys.argv[2], sys.argv[3], sys.argv[4:])
