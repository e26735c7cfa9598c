#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- see DESIGN.md"""
import os
import random
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from vrun import *          # noqa: E402,F403
import apicase as ac        # noqa: E402
from galgen import *        # noqa: E402,F403

RULE_GEN = ('A case is one distinct expression program over one list of input types; an evaluation is one case run on one vector of input values '
            '(small integers, dyadics, reals, zeros, wide magnitudes); distinct_nontrivial counts distinct (case, input vector) pairs whose reference value stayed inside the domain.')
ASSUME = ['the reference algebra in harness/ref.hpp and lib/galgen.py is right', 'the compiler translates the monitors correctly',
          'floating-point differences up to a small multiple of epsilon times the expanded magnitude are rounding']


P = ac.Profile
ALGS = {'vga': VGA, 'pga': PGA, 'pga2': PGA2, 'cga': CGA}


# ---------------------------------------------------------------- confirmation of internal monitors
def confirm_tables(r, viols, cmd):
    """a blade product differs inside the library: show it through compute() or call it inconclusive"""
    cases = []
    for i, v in enumerate(viols[:6]):
        m = re.match(r'TAB (\d+) (\d+) (\d+) (\S+) (\d+) (\d+) ', v)
        if m:
            p_, v_, r_, op, a, b = m.groups()
            A = Alg('m%s%s%s' % (p_, v_, r_), int(p_), int(v_), int(r_))
            ea, eb = [int(a)], [int(b)]
            if (p_, v_, r_) == ('4', '1', '0'):
                A, ea, eb = CGA, range(32), range(32)
            cases.append(ac.binary_case(900000 + i, A, op, ea, eb, random.Random(i)))
    n = len(r.viols)
    r.gen('confirm-tables', cases, per_tu=1)
    if len(r.viols) == n:
        r.unsure(f'blade table mismatch not visible through the public interface: {viols[0][:160]}')


def confirm_x(r, viols, cmd):
    """the internal expression monitor disagrees: rebuild the expression over the public interface"""
    cases = []
    for i, v in enumerate(viols[:8]):
        m = re.match(r'(\w+) iter=\d+ .* for (.*)$', v)
        if not m:
            continue
        texts = [t.strip() for t in m.group(2).split(' ; ') if t.strip()]
        try:
            cases += ac.parse_cases(texts, ALGS[m.group(1)], f'{r.seed}/{i}', 910000 + 10 * i, 3)
        except Exception as e:      # unreadable text is a limit of the confirmation, not of the library
            r.unsure(f'could not rebuild {v[:100]}: {e!r}')
    n = len(r.viols)
    r.gen('confirm-expressions', cases, per_tu=1)
    if len(r.viols) == n:
        r.unsure(f'internal monitor alarm not visible through the public interface: {viols[0][:200]}')


def x_specs(r, mode, runs, iters, flags=('-O1',), **kw):
    return [dict(name='xfuzz-' + mode, src='xfuzz.cpp', internal=True, on_viol=confirm_x, flags=flags,
                 runs=[(mode, r.seed * 1000 + i, iters) for i in range(runs)], **kw)]


# ---------------------------------------------------------------- properties
HIGH = ac.signatures(7, 8)
MANY = dict(inputs=(8, 14), results=[1, 7, 9, 12], nodes=(6, 14), max_in=3, max_work=900, max_mons=100)


def c01(r):
    rng = random.Random(f'{r.seed}/c01')
    cases, ops = [], ['*', '^', '>>', '|', 'sp']
    idx = 0
    for A in ac.signatures(1, 4):
        for op in ops:
            full = range(A.size)
            cases.append(ac.binary_case(idx, A, op, full, full, rng))
            idx += 1
    r.harness('blade-tables', 'tables.cpp', runs=[(d, d) for d in range(1, 9)], flags=('-O1',), internal=True, on_viol=confirm_tables)
    r.gen('dense', cases, per_tu=6)
    r.gen('chains', large_cases(r, r.n(80, 1600), 'chains', 800000, 'c01'), per_tu=6, trials=12)
    big = []
    sig5 = ac.signatures(5, 5)
    for A in (sig5 if r.thorough else rng.sample(sig5, 5)):
        for op in ops if r.thorough else ['*', rng.choice(ops[1:])]:
            big.append(ac.binary_case(idx, A, op, range(32), range(32), rng))
            idx += 1
    hi = ac.signatures(5, 8)
    for _ in range(r.n(60, 900)):
        A = rng.choice(hi)
        k = rng.choice([4, 8, 12])
        big.append(ac.binary_case(idx, A, rng.choice(ops), rng.sample(range(A.size), k), rng.sample(range(A.size), k), rng))
        idx += 1
    rng.shuffle(big)
    r.gen('high-dimensional', big, per_tu=5)
    # the same products over named entities, floats and literals of the shipped algebras
    pf = P(nodes=(1, 2), p_un=0, bins=['*', '^', '>>', '|', 'sp'], p_lit=.25, algs=STD + [CGA] + CUSTOM, max_in=8, max_mons=300)
    r.gen('named', ac.batch(r.seed, r.n(250, 4000), pf, tag='c01n', start=50000))
    return RULE_GEN + ' The blade tables are counted per (signature, product, blade pair).', ASSUME


def c02(r):
    r.gen('basic', ac.batch(r.seed, r.n(900, 12000), P(), tag='c02'))
    r.gen('deep', ac.batch(r.seed, r.n(300, 4000), P(nodes=(5, 10), p_un=.45, p_lit=.25), tag='c02d', start=100000))
    r.gen('custom', ac.batch(r.seed, r.n(300, 4000), P(algs=CUSTOM), tag='c02c', start=200000))
    big = [100, 127, 128, 129, 200, 255, 256, 257, 300, 999, 1024, 4095, 16384, 32767, 32768, 40000, 65535, 65536, 70000, 1000003, 2 ** 24 + 1]
    m = dict(uns=['scale'] * 4 + ['int'] * 4 + ['divi', 'neg', '~', 'comp'], bins=['+'] * 4 + ['-'] * 3 + ['*', '^'], scales=big + [-x for x in big], ints=big + [-x for x in big], lit_ks=big,
             divs=[100, 127, -128, 200, 255, 256, -257, 300, 500, 512], p_un=.6, p_lit=.35, nodes=(1, 5), max_num=2 ** 30)
    r.gen('magnitudes', ac.batch(r.seed, r.n(240, 3000), P(**m), tag='c02m', start=300000))
    r.gen('magnitudes-custom', ac.batch(r.seed, r.n(60, 800), P(**dict(m, algs=CUSTOM)), tag='c02n', start=400000))
    r.gen('high-dimensional', ac.batch(r.seed, r.n(50, 1000), P(algs=HIGH, max_in=4, nodes=(1, 5)), tag='c02h', start=500000), per_tu=10)
    r.gen('many', ac.batch(r.seed, r.n(40, 800), P(**MANY), tag='c02w', start=600000), per_tu=10)
    r.gen('chains', large_cases(r, r.n(60, 1600), 'chains', 700000, 'c02'), per_tu=6, trials=12)
    r.harnesses(x_specs(r, 'build', r.n(4, 40), r.n(15000, 60000)))
    return RULE_GEN, ASSUME


def cse_profile(**kw):
    d = dict(nodes=(4, 11), reuse=.6, need_dup=True, results=[1, 1, 2, 3], max_tree=60, max_work=700)
    d.update(kw)
    return P(**d)


def c03(r):
    r.gen('repeats', ac.batch(r.seed, r.n(500, 8000), cse_profile(), tag='c03'))
    r.gen('repeats-scalar', ac.batch(r.seed, r.n(350, 6000), cse_profile(scalars=True), tag='c03s', start=100000))
    r.gen('repeats-custom', ac.batch(r.seed, r.n(120, 2000), cse_profile(algs=CUSTOM), tag='c03c', start=200000))
    r.gen('repeats-many', ac.batch(r.seed, r.n(60, 1200), cse_profile(**dict(MANY, inputs=(3, 8), nodes=(10, 26), reuse=.45)), tag='c03m', start=600000), per_tu=5)
    r.gen('repeats-high-dimensional', ac.batch(r.seed, r.n(30, 600), cse_profile(algs=HIGH, max_in=4, nodes=(3, 6)), tag='c03h', start=700000), per_tu=10)
    r.gen('repeats-conformal', ac.batch(r.seed, r.n(60, 1000), cse_profile(algs=[CGA], nodes=(3, 6), max_mons=120, max_in=3), tag='c03g', start=300000), per_tu=10)
    r.gen('twins', ac.twins(r.seed, r.n(200, 4000), P(nodes=(3, 9), p_un=.35, uns=['scale'] * 3 + ['comp', 'grade', '~', '!', 'neg', 'divi', 'int'], results=1), tag='c03t', start=400000), per_tu=20)
    r.gen('twins-scalar', ac.twins(r.seed, r.n(250, 5000), P(nodes=(4, 12), scalars=True, p_un=.35, uns=['scale'] * 3 + ['comp', 'grade', '~', '!', 'neg', 'divi', 'int'], results=1), tag='c03u', start=500000), per_tu=20)
    r.harnesses(x_specs(r, 'reshape', r.n(5, 60), r.n(15000, 60000)) + x_specs(r, 'multi', r.n(3, 30), r.n(40000, 100000)))
    return RULE_GEN, ASSUME


def coincident(r, count):
    """coefficients in which up to dozens of equal products meet, cancelling completely or not"""
    rng = random.Random(f'{r.seed}/coincident')
    algs = [a for a in STD + CUSTOM if a.size >= 8 and a.dim < 6]
    out = []
    while len(out) < count:
        A = rng.choice(algs)
        pr = Prog(A, rng)

        def combo():
            n = rng.choice([1, 1, 2])
            inp = Input(f'u{len(pr.inputs)}', n, [(e, rng.choice([1, 1, -1, -1, 2]), 1, [rng.randrange(n)]) for e in sorted(rng.sample(range(A.size), rng.randint(4, min(A.size, 16))))], 'custom')
            inp.layout = rng.randrange(3)
            return pr.add_input(inp)
        a = combo()
        b = combo() if rng.random() < .7 else a
        root = pr.binary(rng.choice(['*', '*', '^', '|', '>>', 'sp']), a, b)
        if rng.random() < .5:
            root = pr.unary(*rng.choice([('comp', root, rng.choice(range(A.size))), ('grade', root, rng.randrange(A.dim + 1))]))
        _, work, mx, dup, _ = pr.analyse([root])
        if dup or mx > 300:
            continue
        i = 700000 + len(out)
        out.append((i, ac.case_cpp(i, pr, [root], support=ac.support_of(pr, [root]))))
    return out


def c04(r):
    pf = P(no_dup=True, need_poly=True, bins=['*'] * 3 + ['+'] * 4 + ['-'] * 4 + ['^'] * 2 + ['>>', '|', '&', '%', 'sp'])
    r.gen('support', ac.batch(r.seed, r.n(800, 12000), pf, tag='c04', support=True))
    pf = P(no_dup=True, need_poly=True, algs=CUSTOM)
    r.gen('support-custom', ac.batch(r.seed, r.n(300, 5000), pf, tag='c04c', support=True, start=100000))
    pf = P(no_dup=True, need_poly=True, algs=[CGA], nodes=(1, 4), max_mons=150, max_in=3)
    r.gen('support-conformal', ac.batch(r.seed, r.n(80, 1500), pf, tag='c04g', support=True, start=200000), per_tu=10)
    r.gen('cancelling', cancelling(r, r.n(250, 4000)), per_tu=25)
    r.gen('polynomials', polynomials(r, r.n(250, 4000)), per_tu=25)
    r.gen('support-high-dimensional', ac.batch(r.seed, r.n(40, 800), P(no_dup=True, need_poly=True, algs=HIGH, max_in=5, nodes=(1, 5)), tag='c04h', support=True, start=500000), per_tu=10)
    r.gen('coincident', coincident(r, r.n(110, 2000)), per_tu=15)
    r.gen('support-many', ac.batch(r.seed, r.n(40, 800), P(**dict(MANY, no_dup=True, need_poly=True)), tag='c04w', support=True, start=600000), per_tu=10)
    return RULE_GEN + ' The element list of the result is compared with the exact support.', ASSUME + ['a coefficient that vanishes at a random point of a 61-bit field vanishes identically']


def cancelling(r, count):
    """expressions built to cancel in part or completely, written without repeating a compound subexpression"""
    rng = random.Random(f'{r.seed}/cancel')
    out = []
    while len(out) < count:
        A = rng.choice(STD + CUSTOM[:12])
        pr = Prog(A, rng)
        n = rng.randint(2, 3)
        xs = [pr.random_input(3) for _ in range(n)]
        a, b, c = xs[0], xs[1], xs[-1]
        k = rng.randrange(9)
        B, U = pr.binary, pr.unary
        if k == 0:
            e = B('-', B('*', a, b), B('*', b, a))
        elif k == 1:
            e = B('+', B('*', a, b), B('*', b, a))
        elif k == 2:
            e = B('-', B('*', B('+', a, b), c), B('*', a, c))
        elif k == 3:
            e = B('-', U('scale', a, 3), B('+', U('scale', a, 2), a))
        elif k == 4:
            e = B('-', B('*', a, b), B('+', B('^', a, b), B('|', a, b)))
        elif k == 5:
            e = B('*', a, U('~', a))
        elif k == 6:
            e = B('-', B('+', U('divi', a, 2), U('divi', a, 3)), U('divi', U('scale', a, 5), 6))
        elif k == 7:
            e = B('-', B('+', a, b), B('+', b, a))
        else:
            e = B('^', B('+', a, b), B('-', a, c))
        if rng.random() < .4:
            e = B('+', e, rng.choice(xs))
        if not e.poly or e.den > 512:
            continue
        _, work, mx, dup, _ = pr.analyse([e])
        if dup or mx > 200:
            continue
        i = 300000 + len(out)
        out.append((i, ac.case_cpp(i, pr, [e], let=rng.random() < .5, support=ac.support_of(pr, [e]))))
    return out


def polynomials(r, count):
    """products of polynomials of mixed degree in a few scalars and components, minus (part of) their expansion"""
    rng = random.Random(f'{r.seed}/polynomials')
    out = []
    while len(out) < count:
        A = rng.choice(STD + CUSTOM[:12])
        pr = Prog(A, rng)
        B, U = pr.binary, pr.unary
        vs = [rng.choice((pr.float_input, pr.scalar_input))() for _ in range(rng.randint(1, 3))]
        if A.ns and rng.random() < .4:
            x = pr.random_input(3)
            vs += [U('comp', x, e) for e in rng.sample(sorted(x.val), min(2, len(x.val)))]

        def poly(deg):
            p = {}
            for _ in range(rng.randint(2, 3)):
                m = tuple(sorted(rng.choices(range(len(vs)), k=rng.randint(0, deg))))
                p[m] = p.get(m, 0) + rng.choice((1, 1, -1, 2, -2, 3))
            return {m: c for m, c in p.items() if c}

        def mono(m, c):
            m = list(m)
            rng.shuffle(m)
            fs = [vs[i] for i in m]
            while len(fs) > 1:                      # any association
                i = rng.randrange(len(fs) - 1)
                fs[i:i + 2] = [B('*', fs[i], fs[i + 1])]
            if not fs:
                return None
            return fs[0] if c == 1 else U('neg', fs[0]) if c == -1 else U('scale', fs[0], c)

        def total(p):
            items = list(p.items())
            rng.shuffle(items)
            e, k = None, 0
            for m, c in items:
                if not m:
                    k += c
                    continue
                t = mono(m, c)
                e = t if e is None else B('+', e, t)
            if e is None:
                return None
            return U(rng.choice(('i+', '+i')), e, k) if k else e
        p, q = poly(2), poly(2)
        ep, eq = total(p), total(q)
        if ep is None or eq is None:
            continue
        full = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                full[k] = full.get(k, 0) + c * d
        items = [(m, -c) for m, c in full.items() if c]
        rng.shuffle(items)
        if rng.random() < .4:
            items = items[:rng.randint(1, len(items))]
        e = B('*', ep, eq)
        rest = total(dict(items))
        if rest is not None:
            e = B('+', e, rest) if rng.random() < .5 else B('+', rest, e)
        elif items:
            e = U('+i', e, items[0][1])
        if A.lits and rng.random() < .3:
            e = B('*', e, pr.literal(k=1))
        _, work, mx, dup, _ = pr.analyse([e])
        if dup or mx > 200 or not e.poly:
            continue
        i = 350000 + len(out)
        out.append((i, ac.case_cpp(i, pr, [e], let=rng.random() < .5, support=ac.support_of(pr, [e]))))
    return out


def c05(r):
    ub = ('-O1', '-fsanitize=undefined', '-fno-sanitize-recover=undefined')
    r.harnesses([dict(name='rationals', src='ratcheck.cpp', runs=[(r.seed * 1000 + i, r.n(250000, 3000000)) for i in range(r.n(4, 16))], flags=ub, internal=True),
                 dict(name='rationals-clang', src='ratcheck.cpp', cc=CLANG, runs=[(r.seed * 1000 + 500, r.n(250000, 3000000))], flags=ub, internal=True)])
    d = dict(uns=['scale'] * 4 + ['divi'] * 5 + ['neg', 'int', 'int', 'comp', '~'], p_un=.6, nodes=(2, 8), scales=list(range(-12, 13)) + [15, 16, 25, 36, 100, -100, 999],
             divs=[k for k in range(-12, 13) if k] + [16, 20, 36, 64, 100, -128])
    r.gen('coefficients', ac.batch(r.seed, r.n(600, 9000), P(**dict(d, bins=['+'] * 3 + ['-'] * 3 + ['*', '*', '^', '|'])), tag='c05'))
    r.gen('coefficients-exact', ac.batch(r.seed, r.n(250, 4000), P(**dict(d, bins=['+', '-'], no_dup=True, need_poly=True)), tag='c05e', support=True, start=100000))
    r.gen('coefficients-scalar', ac.batch(r.seed, r.n(150, 2500), P(**dict(d, scalars=True)), tag='c05s', start=200000))
    rng = random.Random(f'{r.seed}/c05')
    big = []
    for i in range(r.n(120, 1500)):
        A = rng.choice(STD)
        pr = Prog(A, rng)
        x = pr.random_input(3)
        e, den, steps = x, 1, 0
        while den < 1024:
            k = rng.choice([2, 3, 5, 7, 11, 13, 17, 19, 23, 31, 37, 64, 97, 128, 211, 509, 1021])
            if den * k > 60000:
                continue
            den *= k
            e = pr.unary('divi', e, k * rng.choice([1, -1]))
            steps += 1
        if rng.random() < .6:
            e = pr.unary('scale', e, rng.choice([2, 3, 5, 7, 100, 333]))
            steps += 1
        if rng.random() < .5:
            e = pr.binary('+', e, rng.choice([x, pr.unary('scale', x, 3), pr.unary('divi', x, 2)]))
            steps += 1
        big.append((300000 + i, ac.case_cpp(300000 + i, pr, [e], extra=(steps + 2) * 1.1e-7 * den)))
    r.gen('large-denominators', big)
    return RULE_GEN + ' Rational operator calls are counted per distinct operand pair.', ASSUME


def c06(r):
    rng = random.Random(f'{r.seed}/c06')
    cases, idx = [], 0
    for A in ac.signatures(1, 5):
        full = list(range(A.size))
        for op in ('~', '!', 'neg'):
            cases.append(ac.unary_case(idx, A, op, full, rng))
            idx += 1
        if A.dim <= 3:
            cases.append(ac.binary_case(idx, A, '&', full, full, rng))
            cases.append(ac.binary_case(idx + 1, A, '%', full, full, rng))
            idx += 2
        else:
            k = 12 if A.dim == 4 else 9
            cases.append(ac.binary_case(idx, A, '&', rng.sample(full, k), rng.sample(full, k), rng))
            cases.append(ac.binary_case(idx + 1, A, '%', rng.sample(full, 4), rng.sample(full, 4), rng))
            idx += 2
    for A in (rng.sample(ac.signatures(6, 8), 12) if not r.thorough else ac.signatures(6, 8)):
        for op in ('~', '!'):
            cases.append(ac.unary_case(idx, A, op, rng.sample(range(A.size), 48), rng))
            idx += 1
        cases.append(ac.binary_case(idx, A, '&', rng.sample(range(A.size), 8), rng.sample(range(A.size), 8), rng))
        idx += 1
    rng.shuffle(cases)
    r.gen('dense', cases, per_tu=12)
    r.gen('chains', large_cases(r, r.n(80, 1600), 'chains', 900000, 'c06'), per_tu=6, trials=12)
    pf = P(bins=['&'] * 3 + ['%'] * 3 + ['*', '+', '-', '^', '|'], uns=['~'] * 4 + ['!'] * 4 + ['neg', 'scale', 'divi', 'comp', 'grade', 'int'], p_un=.5, p_lit=.2, max_mons=300)
    r.gen('nested', ac.batch(r.seed, r.n(600, 9000), pf, tag='c06', start=100000))
    pf2 = P(**dict(pf.__dict__, algs=CUSTOM))
    r.gen('nested-custom', ac.batch(r.seed, r.n(200, 4000), pf2, tag='c06c', start=200000))
    pf3 = P(**dict(pf.__dict__, algs=[CGA], nodes=(1, 3), max_mons=150, max_in=3))
    r.gen('nested-conformal', ac.batch(r.seed, r.n(60, 1000), pf3, tag='c06g', start=300000), per_tu=10)
    return RULE_GEN, ASSUME


def c07(r):
    d = dict(uns=['comp'] * 4 + ['grade'] * 4 + ['~', '!', 'scale', 'int'], p_un=.6, nodes=(2, 8))
    r.gen('selections', ac.batch(r.seed, r.n(700, 10000), P(**d), tag='c07'))
    r.gen('selections-scalar', ac.batch(r.seed, r.n(200, 3000), P(**dict(d, scalars=True)), tag='c07s', start=100000))
    r.gen('selections-custom', ac.batch(r.seed, r.n(250, 4000), P(**dict(d, algs=CUSTOM)), tag='c07c', start=200000))
    r.gen('selections-conformal', ac.batch(r.seed, r.n(60, 1000), P(**dict(d, algs=[CGA], nodes=(1, 4), max_mons=120, max_in=3)), tag='c07g', start=300000), per_tu=10)
    # every component and every grade of dense operands
    rng = random.Random(f'{r.seed}/c07')
    cases, idx = [], 400000
    for A in STD + rng.sample(CUSTOM, r.n(4, len(CUSTOM))):
        for kind, n in (('comp', A.size), ('grade', A.dim + 2)):
            sel = range(n) if n <= 16 else sorted(rng.sample(range(n), 16))
            for part in [list(sel)[i:i + 8] for i in range(0, len(sel), 8)]:
                pr = Prog(A, rng)
                x = pr.entity_input(sorted(rng.sample(range(A.size), min(A.size, 16))))
                roots = [pr.unary(kind, x, k) for k in part]
                cases.append((idx, ac.case_cpp(idx, pr, roots, support=ac.support_of(pr, roots))))
                idx += 1
    r.gen('every-selection', cases, per_tu=6)
    r.gen('selections-high-dimensional', ac.batch(r.seed, r.n(60, 1000), P(**dict(d, algs=HIGH, max_in=5, nodes=(1, 5))), tag='c07h', start=500000), per_tu=10)
    r.gen('selections-many', ac.batch(r.seed, r.n(40, 800), P(**{**d, **MANY}), tag='c07w', start=600000), per_tu=10)
    return RULE_GEN, ASSUME


def own_scalar(p):
    """inputs of user-defined types: often a scalar that is a power of one stored number"""
    if p.rng.random() < .5:
        return p.custom_input() if p.rng.random() < .4 else p.float_input()
    inp = Input(f'u{len(p.inputs)}', 1, [(0, p.rng.choice([1, 1, 2, -3]), p.rng.choice([1, 1, 2]), [0] * p.rng.choice([1, 2, 3, 4]))], 'custom')
    inp.layout = p.rng.randrange(3)
    return p.add_input(inp)


def c08(r):
    pf = dict(scalars=True, p_un=.3)
    r.gen('scalar', ac.batch(r.seed, r.n(800, 12000), P(**pf), tag='c08'))
    r.gen('scalar-deep', ac.batch(r.seed, r.n(250, 4000), P(**dict(pf, nodes=(5, 10), reuse=.35)), tag='c08d', start=100000))
    r.gen('scalar-custom', ac.batch(r.seed, r.n(150, 2500), P(**dict(pf, algs=CUSTOM[:12])), tag='c08c', start=200000))
    r.gen('scalar-conformal', ac.batch(r.seed, r.n(40, 700), P(**dict(pf, algs=[CGA], nodes=(2, 5), max_mons=120, max_in=3)), tag='c08g', start=400000), per_tu=10)
    r.gen('scalar-own-types', ac.batch(r.seed, r.n(60, 1000), P(**dict(pf, nodes=(1, 5), input_fn=own_scalar)), tag='c08o', start=600000), per_tu=15)
    r.gen('scalar-towers', large_cases(r, r.n(100, 1800), 'towers', 700000, 'c08'), per_tu=10, trials=40)
    r.gen('scalar-many', ac.batch(r.seed, r.n(60, 1000), P(**{**pf, **MANY}), tag='c08w', start=500000), per_tu=10)
    r.gen('scalar-only', ac.batch(r.seed, r.n(400, 6000), P(**dict(pf, nodes=(2, 8), p_lit=.02, input_fn=lambda p: p.float_input(), bins=['*', '*', '+', '+', '-', '/'],
                                                                    uns=['neg', 'scale', 'divi', 'int', 'int'])), tag='c08o', start=300000))
    return RULE_GEN, ASSUME


def c12_gen(r):
    d = dict(algs=[CGA], nodes=(1, 4), max_mons=150, max_in=3)
    r.gen('conformal', ac.batch(r.seed, r.n(260, 4000), P(**d), tag='c12'), per_tu=10)
    r.gen('conformal-literals', ac.batch(r.seed, r.n(120, 2000), P(**dict(d, p_lit=.5)), tag='c12l', start=100000), per_tu=10)
    r.gen('conformal-shared', ac.batch(r.seed, r.n(60, 1000), cse_profile(algs=[CGA], nodes=(3, 6), max_mons=120, max_in=3), tag='c12c', start=200000), per_tu=10)
    r.gen('conformal-scalar', ac.batch(r.seed, r.n(60, 1000), P(**dict(d, scalars=True)), tag='c12s', start=300000), per_tu=10)


def mixed_input(p):
    x = p.rng.random()
    if p.inputs and x < .15:
        return p.alias_input(p.rng.randrange(len(p.inputs)))
    if x < .25:
        return p.entity_input([])
    if x < .45:
        return p.float_input()
    return p.random_input(4)


def c13(r):
    d = dict(inputs=(2, 7), nodes=(2, 7), results=[1, 2, 2, 3, 4, 5, 6], input_fn=mixed_input, p_lit=.1, max_work=400, max_mons=100)
    r.gen('positions', ac.batch(r.seed, r.n(600, 9000), P(**d), tag='c13'), per_tu=20)
    r.gen('positions-custom', ac.batch(r.seed, r.n(100, 1500), P(**dict(d, algs=CUSTOM)), tag='c13c', start=100000), per_tu=20)
    r.gen('positions-conformal', ac.batch(r.seed, r.n(40, 700), P(**dict(d, algs=[CGA], nodes=(1, 3), results=[1, 2, 3], inputs=(2, 4))), tag='c13g', start=200000), per_tu=8)
    r.gen('positions-float', ac.batch(r.seed, r.n(120, 1500), P(**dict(d, vtypes=['float'])), tag='c13f', start=300000), per_tu=20)
    r.gen('selectors', selectors(r, r.n(120, 2000)), per_tu=20)
    r.gen('positions-wide', wide_positions(r, r.n(60, 900)), per_tu=4)
    r.gen('positions-many', ac.batch(r.seed, r.n(60, 1200), P(**{**d, **MANY, 'inputs': (8, 16), 'results': [6, 8, 9, 10, 12, 15]}), tag='c13m', start=600000), per_tu=8)
    return RULE_GEN, ASSUME


def wide_positions(r, count):
    """entities of 5 to 32 components in any position, used directly and through a shared subexpression"""
    rng = random.Random(f'{r.seed}/wide')
    algs = [a for a in STD + CUSTOM if a.size >= 8]
    out = []
    for i in range(count):
        A = rng.choice(algs)
        pr = Prog(A, rng)
        xs = []
        for _ in range(rng.randint(2, 5)):
            k = rng.random()
            xs.append(pr.float_input() if k < .25 else pr.entity_input(sorted(rng.sample(range(A.size), rng.randint(5, min(A.size, 32))))) if k < .8 else mixed_input(pr))
        sc = [x for x in xs if set(x.val) <= {0}] or [pr.float_input()]
        xs += [y for y in sc if y not in xs]
        roots = []
        s = rng.choice(sc)
        a, b = rng.choice(xs), rng.choice(xs)
        shared = pr.binary('*', s, a) if rng.random() < .5 else pr.binary('+', pr.unary('scale', a, rng.choice([2, 3, -2])), b)
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            c = rng.choice(xs)
            e = shared if k < .2 else pr.binary('+', shared, c) if k < .45 else pr.binary('-', c, shared) if k < .6 else pr.binary('*', rng.choice(sc), shared) if k < .8 else c
            roots.append(e)
        rng.shuffle(roots)
        out.append((500000 + i, ac.case_cpp(500000 + i, pr, roots, let=rng.random() < .7)))
    return out


def selectors(r, count):
    """results that are bare inputs, literals, zero, or the same value again, in random order"""
    rng = random.Random(f'{r.seed}/sel')
    out = []
    for i in range(count):
        A = rng.choice(STD)
        pr = Prog(A, rng)
        xs = [mixed_input(pr) for _ in range(rng.randint(2, 8))]
        roots = []
        for _ in range(rng.randint(2, 7)):
            k = rng.random()
            a, b = rng.choice(xs), rng.choice(xs)
            if k < .35:
                roots.append(a)
            elif k < .45:
                roots.append(pr.literal())
            elif k < .55:
                roots.append(pr.binary('-', a, a))
            elif k < .65 and roots:
                roots.append(rng.choice(roots))
            elif k < .75:
                roots.append(pr.unary('scale', a, rng.choice([-2, -1, 2, 3])))
            elif k < .9:
                roots.append(pr.binary('+', a, b))
            else:
                roots.append(pr.binary('^', a, b))
        out.append((400000 + i, ac.case_cpp(400000 + i, pr, roots, let=rng.random() < .5)))
    return out


PGA2_VECTOR = '''#include <gal/pga2.hpp>
int main() { gal::pga2::vector<double> v{1, 2, 0}; auto r = gal::pga2::compute([](auto a) { return a; }, v); return r.size() == 2 || r.size() == 3 ? 0 : 1; }
'''
CGA2_HEADER = '''#include <gal/cga2.hpp>
int main() { gal::cga2::point<double> p{1, 2}; auto r = gal::cga2::compute([](auto a) { return a; }, p); return r.size() == 4 ? 0 : 1; }
'''


def c09(r):
    n = r.n(20000, 400000)
    r.harnesses([dict(name='motors', src='motors.cpp', runs=[(r.seed * 100 + i, n) for i in range(8)], flags=('-O1',)),
                 dict(name='motors-clang', src='motors.cpp', cc=CLANG, runs=[(r.seed * 100 + 50, n)], flags=('-O2',))])
    return 'An evaluation is one line or motor pushed through exponential, logarithm or normalisation; distinct counts distinct coordinate vectors.', ASSUME[:2] + [
        'tolerances proportional to epsilon, to the size of the moment and, near a half-turn, to the inverse cosine are rounding']


def c10(r):
    n = r.n(8000, 200000)
    r.harnesses([dict(name='names', src='names.cpp', runs=[(r.seed * 100 + i, n) for i in range(8)], flags=('-O1',)),
                 dict(name='names-clang', src='names.cpp', cc=CLANG, runs=[(r.seed * 100 + 50, n)], flags=('-O2',))])
    named = dict(input_fn=lambda p: p.named_input(), nodes=(1, 4), p_lit=.1)
    r.gen('named-inputs', ac.batch(r.seed, r.n(250, 4000), P(**named), tag='c10'))
    r.gen('named-inputs-float', ac.batch(r.seed, r.n(100, 2000), P(**dict(named, vtypes=['float'])), tag='c10f', start=100000))
    r.gen('named-inputs-conformal', ac.batch(r.seed, r.n(30, 500), P(**dict(named, algs=[CGA], nodes=(1, 2), max_mons=150)), tag='c10g', start=200000), per_tu=8)
    r.probes([('probe:pga2-vector', 'the vector type of the planar projective algebra cannot be used in an expression', PGA2_VECTOR, True)])
    return RULE_GEN + ' In the round-trip monitor an evaluation is one object of one named type, or one entity type a named object is built from.', ASSUME


def c11(r):
    n = r.n(20000, 500000)
    r.harnesses([dict(name='geometry', src='geometry.cpp', runs=[(r.seed * 100 + i, n) for i in range(8)], flags=('-O1',)),
                 dict(name='geometry-clang', src='geometry.cpp', cc=CLANG, runs=[(r.seed * 100 + 50, n)], flags=('-O2',))])
    geo = dict(input_fn=lambda p: p.named_input(), bins=['^'] * 3 + ['&'] * 3 + ['%'] * 3 + ['*', '|'], uns=['~', '!', 'neg'], p_un=.15, p_lit=.05, nodes=(1, 4), algs=[PGA, PGA2, PGA], max_mons=300)
    r.gen('geometric-programs', ac.batch(r.seed, r.n(250, 4000), P(**geo), tag='c11'))
    return RULE_GEN + ' In the geometry monitor an evaluation is one random configuration of points, planes, axes and motions.', ASSUME


def c12(r):
    n = r.n(10000, 300000)
    r.harnesses([dict(name='conformal', src='conformal.cpp', runs=[(r.seed * 100 + i, n) for i in range(8)], flags=('-O1',)),
                 dict(name='conformal-clang', src='conformal.cpp', cc=CLANG, runs=[(r.seed * 100 + 50, n)], flags=('-O2',))])
    c12_gen(r)
    r.probes([('probe:cga2-header', 'the two-dimensional conformal header does not compile', CGA2_HEADER, True)])
    return RULE_GEN + ' In the conformal monitor an evaluation is one pair of points with a translation.', ASSUME


ASAN = ('-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS')
ASAN_ENV = dict(ASAN_OPTIONS='detect_stack_use_after_return=1:detect_leaks=1:exitcode=77:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
TSAN_ENV = dict(TSAN_OPTIONS='halt_on_error=1:exitcode=66')
# programs for the monitors that watch a call rather than its value: every operator, every entity shape, shared parts, several results
CALLS = dict(inputs=(1, 4), nodes=(2, 8), reuse=.35, scalars=True, results=[1, 1, 2, 3], algs=STD + STD + CUSTOM[:8], vtypes=['double', 'double', 'float'])


def call_batch(r, count, tag, start=0, **kw):
    return ac.batch(r.seed, count, P(**dict(CALLS, **kw)), tag=tag, start=start, calls=True)


def c14(r):
    k = dict(tu=ac.call_tu, judge='sanitizer', per_tu=20, trials=30, args=(1,))
    cg = dict(algs=[CGA], nodes=(1, 3), max_mons=120)
    r.gen('asan-ubsan-gcc', call_batch(r, r.n(400, 5000), 'c14a'), flags=('-O1',) + ASAN, env=ASAN_ENV, **k)
    r.gen('asan-ubsan-clang', call_batch(r, r.n(400, 5000), 'c14b', 10000, inputs=(2, 6), input_fn=mixed_input), cc=CLANG,
          flags=('-O1', '-fsanitize=float-cast-overflow,local-bounds') + ASAN, env=ASAN_ENV, **k)
    r.gen('asan-ubsan-conformal', call_batch(r, r.n(40, 500), 'c14g', 20000, **cg), flags=('-O0',) + ASAN, env=ASAN_ENV, **dict(k, per_tu=4))
    vg = ('valgrind', '-q', '--error-exitcode=97', '--track-origins=yes')
    r.gen('memcheck', call_batch(r, r.n(160, 2500), 'c14v', 30000), flags=('-O0', '-g'), wrap=vg, **dict(k, per_tu=10))
    uninit(r, call_batch(r, r.n(240, 4000), 'c14u', 40000))
    hs = []
    for cc in (GCC, CLANG):
        fl = ('-O1',) + ASAN
        t = 'clang-' if cc == CLANG else ''
        sd = r.seed * 100 + (50 if cc == CLANG else 0)
        hs += [dict(name=t + 'extras-san', src='extras.cpp', runs=[(sd, r.n(400, 4000), 1)], flags=fl),
               dict(name=t + 'motors-san', src='motors.cpp', runs=[(sd, r.n(1500, 20000))], flags=fl),
               dict(name=t + 'conformal-san', src='conformal.cpp', runs=[(sd, r.n(1000, 20000))], flags=fl)]
        if r.thorough:      # minutes to build
            hs += [dict(name=t + 'geometry-san', src='geometry.cpp', runs=[(sd, 20000)], flags=fl)]
        for part in range(7) if r.thorough else (0, 3, 6) if cc == GCC else (1, 4):
            hs += [dict(name=f'{t}storage{part}-san', src='storage.cpp', runs=[(sd, 3, 0), (sd + 1, 3, 1)], flags=('-O0', f'-DPART={part}', f'-DSALT={r.seed}') + ASAN)]
        hs = [dict(h, cc=h.get('cc', cc)) for h in hs]
    hs += [dict(name='names-san', src='names.cpp', runs=[(r.seed * 100, r.n(300, 5000))], flags=('-O0',) + ASAN),
           dict(name='engine-san', src='xfuzz.cpp', internal=True, runs=[(m, r.seed * 1000 + 7, r.n(4000, 40000)) for m in ('build', 'reshape', 'multi')], flags=('-O1',) + ASAN),
           dict(name='extras-memcheck', src='extras.cpp', runs=[(r.seed, r.n(30, 300), 1)], flags=('-O0', '-g'), wrap=vg),
           dict(name='motors-memcheck', src='motors.cpp', runs=[(r.seed, r.n(100, 1000))], flags=('-O0', '-g'), wrap=vg)]
    r.harnesses([dict(h, judge='sanitizer', env=ASAN_ENV if '-san' in h['name'] else None) for h in hs])
    return ('An evaluation is one instrumented call on one vector of input bits, ordinary or hostile; distinct counts distinct (call, input bits).',
            ['AddressSanitizer, UndefinedBehaviorSanitizer and memcheck report what they are built to report', ASSUME[1]])


def uninit(r, cases):
    """the same calls built with automatic variables filled with zeros and with a pattern: results must not differ"""
    seen = {}

    def note(tag):
        def f(out):
            for m in re.finditer(r'^DIGEST (\d+) (\w+) (.*)$', out, re.M):
                seen.setdefault(int(m.group(1)), {})[tag] = (m.group(2), m.group(3))
        return f
    src = dict(cases)
    for tag in ('zero', 'pattern'):
        r.gen('autoinit-' + tag, cases, flags=('-O0', '-ftrivial-auto-var-init=' + tag), tu=ac.call_tu, judge='sanitizer', per_tu=20, trials=20, args=(1,), collect=note(tag))
    for i, d in seen.items():
        if len(d) == 2 and d['zero'][0] != d['pattern'][0]:
            r.violate('autoinit', f'the result depends on an uninitialised variable: {d["zero"][1]}', {'case.cpp': ac.call_tu([(i, src[i])])},
                      'build case.cpp with -ftrivial-auto-var-init=zero and =pattern and compare the DIGEST lines')


def c15(r):
    k = dict(tu=ac.call_tu, per_tu=20, trials=16, args=(1,))
    cg = dict(algs=[CGA], nodes=(1, 3), max_mons=120)
    r.gen('effects', call_batch(r, r.n(300, 5000), 'c15'), flags=('-O1', '-DDRIVER=1'), **k)
    r.gen('effects-O0', call_batch(r, r.n(120, 2000), 'c15o', 10000, inputs=(2, 6), input_fn=mixed_input), flags=('-O0', '-DDRIVER=1'), **k)
    r.gen('effects-clang', call_batch(r, r.n(120, 2000), 'c15l', 20000), cc=CLANG, flags=('-O2', '-DDRIVER=1'), **k)
    r.gen('effects-conformal', call_batch(r, r.n(24, 400), 'c15g', 30000, **cg), flags=('-O0', '-DDRIVER=1'), **dict(k, per_tu=4))
    r.harnesses([dict(name='effects-named', src='extras.cpp', runs=[(r.seed, r.n(400, 5000), 1)], flags=('-O1', '-DDRIVER=1')),
                 dict(name='effects-named-O0', src='extras.cpp', runs=[(r.seed + 1, r.n(400, 5000), 1)], flags=('-O0', '-DDRIVER=1')),
                 dict(name='effects-named-clang', src='extras.cpp', cc=CLANG, runs=[(r.seed + 2, r.n(400, 5000), 1)], flags=('-O2', '-DDRIVER=1'))])
    return ('An evaluation is one call on inputs in write-protected memory and again on ordinary memory, with heap use counted; every input vector is evaluated several times in '
            'different orders and results are compared bit for bit. distinct counts distinct (call, input bits).', ['allocations go through malloc and its relatives', ASSUME[1]])


def c16(r):
    ts = ('-fsanitize=thread', '-g1', '-DDRIVER=2')
    k = dict(tu=ac.call_tu, per_tu=20, trials=6, args=(1,), env=TSAN_ENV)
    cg = dict(algs=[CGA], nodes=(1, 3), max_mons=120)
    r.gen('threads-tsan', call_batch(r, r.n(140, 3000), 'c16'), flags=('-O1',) + ts, **k)
    r.gen('threads-tsan-clang', call_batch(r, r.n(100, 2000), 'c16l', 10000, inputs=(2, 6), input_fn=mixed_input), cc=CLANG, flags=('-O1',) + ts, **k)
    r.gen('threads-tsan-conformal', call_batch(r, r.n(12, 300), 'c16g', 20000, **cg), flags=('-O0',) + ts, **dict(k, per_tu=4))
    r.gen('threads-plain', call_batch(r, r.n(200, 3000), 'c16p', 30000), flags=('-O1', '-DDRIVER=2', '-pthread'), **dict(k, trials=60))
    r.harnesses([dict(name='threads-named-tsan', src='extras.cpp', runs=[(r.seed + i, r.n(30, 300), 1) for i in range(2)], flags=('-O1',) + ts, env=TSAN_ENV),
                 dict(name='threads-named-clang-tsan', src='extras.cpp', cc=CLANG, runs=[(r.seed + 5, r.n(30, 300), 1)], flags=('-O1',) + ts, env=TSAN_ENV),
                 dict(name='threads-named', src='extras.cpp', runs=[(r.seed + 9, r.n(300, 3000), 1)], flags=('-O1', '-DDRIVER=2', '-pthread'))])
    return ('An evaluation is one call and input vector shared by eight threads (lock-step cold start, then free running); the counters give the evaluations made in threads, thread switches and '
            'distinct windows of eight consecutive completions seen. distinct counts distinct (call, input bits).', ['ThreadSanitizer reports the races of the schedules that occurred', ASSUME[1]])


def c18(r):
    sd = r.seed * 100
    salts = range(r.seed * 10, r.seed * 10 + r.n(1, 12))
    hs = []
    for part in range(7):
        for salt in salts:
            hs.append(dict(name=f'storage{part}-{salt}', src='storage.cpp', runs=[(sd, r.n(12, 60), 0), (sd + 1, r.n(12, 60), 1)], flags=('-O0', f'-DPART={part}', f'-DSALT={salt}')))
        hs.append(dict(name=f'storage{part}-clang', src='storage.cpp', cc=CLANG, runs=[(sd + 2, r.n(12, 60), 0), (sd + 3, r.n(12, 60), 1)], flags=('-O1', f'-DPART={part}', f'-DSALT={r.seed + 77}')))
    hs.append(dict(name='storage-wide', src='storage.cpp', runs=[(sd, r.n(12, 200), 0), (sd + 1, r.n(12, 200), 1)], flags=('-O0', '-DPART=7')))
    r.harnesses(hs)
    return ('An evaluation is one entity type (element subset, value type, algebra, or named type) filled with one vector of values and read through every accessor; distinct counts distinct (type, values).',
            ['the layout table in harness/storage.cpp is right', ASSUME[1]])


def c17(r):
    seen = {}
    where = {}

    def note(build):
        def f(out):
            for m in re.finditer(r'^EL (#\d+) (.*?) : ?(.*)$', out, re.M):
                k = m.group(1) + ' ' + re.sub(r'\b(float|double)\b', 'V', m.group(2))
                seen.setdefault(k, {}).setdefault(m.group(3).strip(), set()).add(build)
        return f
    n = r.n(140, 2500)
    d = dict(scalars=True, reuse=.3, nodes=(2, 7), results=[1, 1, 1, 2, 3], algs=STD + STD + CUSTOM[:10])
    e = dict(bins=['+', '-', '*'], uns=['divi'] * 4 + ['scale'] * 3 + ['neg', '~', 'comp'], p_un=.6, nodes=(2, 6))
    g = dict(algs=[CGA], nodes=(1, 3), max_mons=120, max_in=3)
    progs = []
    for tag, kw, cnt in (('c17', d, n), ('c17e', e, n // 2), ('c17g', g, n // 6)):
        start = 20000 * len(progs)
        progs.append({v: ac.batch(r.seed, cnt, P(**dict(kw, vtypes=[v])), tag=tag, start=start) for v in ('double', 'float')})
    builds = [('gcc-O0', GCC, ('-O0',)), ('gcc-release', GCC, ('-O3', '-DNDEBUG', '-march=native')), ('clang-O0', CLANG, ('-O0',)), ('clang-20', CLANG, ('-O2', '-std=c++20'))]
    # the flags the documentation recommends, and the debug switch; a processor without fused multiply-add gets the rest of the flags
    fma = ('-mfma',) if ' fma ' in open('/proc/cpuinfo').read() else ()
    builds += [('gcc-fast', GCC, ('-O2', '-ffast-math') + fma), ('clang-debug-switch', CLANG, ('-O1', '-DGAL_DEBUG', '-fno-math-errno') + fma)]
    builds += [('gcc-20', GCC, ('-Os', '-std=c++20'))]
    if r.thorough:
        builds += [('clang-fast', CLANG, ('-O2', '-ffast-math') + fma), ('gcc-debug-switch', GCC, ('-O1', '-DGAL_DEBUG'))]
        builds += [('gcc-O2', GCC, ('-O2',)), ('gcc-Os', GCC, ('-Os',)), ('clang-O3', CLANG, ('-O3',)), ('gcc-O3', GCC, ('-O3',)), ('clang-release', CLANG, ('-O2', '-DNDEBUG', '-march=native'))]
    for name, cc, fl in builds:
        for v in ('double', 'float'):
            cases = [c for p_ in progs for c in p_[v]]
            for c in cases:
                where.setdefault(c[0], {})[v] = c[1]
            r.gen(f'{name}-{v}', cases, cc=cc, flags=fl + ('-DNOTE_ELEMS',), collect=note(f'{name}-{v}'), per_tu=15)
    for k, d_ in seen.items():
        if len(d_) > 1:
            i = int(re.match(r'#(\d+)', k).group(1))
            r.violate('elements', f'the element list depends on the build: {k}: ' + '; '.join(f'{{{a}}} in {", ".join(sorted(b)[:3])}' for a, b in d_.items()),
                      {f'case-{v}.cpp': ac.tu_source([(i, t)]) for v, t in where[i].items()}, 'build with -DNOTE_ELEMS in the named builds and compare the EL lines')
    r.counts['programs whose element lists were compared across builds'] = len(seen)
    m = r.n(4000, 100000)
    r.harnesses([dict(name='motors-' + a, src='motors.cpp', cc=cc, runs=[(r.seed * 100 + 3, m)], flags=(f,)) for a, cc, f in (('gcc-O0', GCC, '-O0'), ('gcc-O3', GCC, '-O3'), ('clang-O0', CLANG, '-O0'))])
    return RULE_GEN + ' Every program is built in several configurations (value type, compiler, optimisation); element lists are compared between builds, values with the reference at the rounding of the value type.', ASSUME


def own_input(p):
    x = p.rng.random()
    if p.inputs and x < .12:
        return p.alias_input(p.rng.randrange(len(p.inputs)))
    return p.custom_input() if x < .75 else p.random_input(4)


OWN_DIVISOR = '''#include <gal/vga.hpp>
#include <cmath>
using A = gal::algebra<gal::metric<3, 0, 0>>;
struct u // the scalar 3 + 2 x^2
{
    using algebra_t = A;
    using value_t = double;
    double v[1];
    [[nodiscard]] constexpr static gal::mv<A, 1, 2, 1> ie(uint32_t id) noexcept
    {
        return {gal::mv_size{1, 2, 1}, {gal::ind{id, gal::rat{2}}}, {gal::mon{gal::rat{3}, gal::rat{0}, 0, 0}, gal::mon{gal::rat{2}, gal::rat{2}, 1, 0}}, {gal::term{2, 0, 0}}};
    }
    [[nodiscard]] constexpr static size_t size() noexcept { return 1; }
    [[nodiscard]] constexpr double const& operator[](size_t i) const noexcept { return v[i]; }
    [[nodiscard]] constexpr double& operator[](size_t i) noexcept { return v[i]; }
};
int main()
{
    u x{{1.5}};
    gal::vga::vector<double> y{1, 2, 3};
    auto r = gal::vga::compute([](auto x, auto y) { return y / x; }, x, y);
    return std::abs(r[0] - 1 / 7.5) < 1e-12 ? 0 : 1;
}
'''

OWN_DIVISOR2 = OWN_DIVISOR.replace('the scalar 3 + 2 x^2', 'the scalar x y').replace('double v[1]', 'double v[2]').replace('gal::mv<A, 1, 2, 1>', 'gal::mv<A, 2, 1, 1>').replace(
    'return {gal::mv_size{1, 2, 1}, {gal::ind{id, gal::rat{2}}}, {gal::mon{gal::rat{3}, gal::rat{0}, 0, 0}, gal::mon{gal::rat{2}, gal::rat{2}, 1, 0}}, {gal::term{2, 0, 0}}};',
    'return {gal::mv_size{2, 1, 1}, {gal::ind{id, gal::rat{1}}, gal::ind{id + 1, gal::rat{1}}}, {gal::mon{gal::rat{1}, gal::rat{2}, 2, 0}}, {gal::term{1, 0, 0}}};').replace(
    'return 1; }', 'return 2; }').replace('u x{{1.5}}', 'u x{{1.5, 5}}')


def c21(r):
    r.probes([('probe:own-divisor-product', 'an input of a user-defined type whose scalar is a product of its numbers cannot be divided by', OWN_DIVISOR2, True),
              ('probe:own-divisor', 'dividing by an input of a user-defined type whose scalar has several monomials divides by something else', OWN_DIVISOR, True)])
    k = dict(input_fn=own_input, nodes=(1, 6), max_mons=160, max_work=400, results=[1, 1, 1, 2, 3])
    r.gen('own-types', ac.batch(r.seed, r.n(360, 6000), P(**k), tag='c21'), per_tu=20)
    r.gen('own-types-exact', ac.batch(r.seed, r.n(160, 3000), P(**dict(k, no_dup=True, need_poly=True, results=1)), tag='c21x', start=100000, support=True), per_tu=20)
    r.gen('own-types-scalar', ac.batch(r.seed, r.n(120, 2500), P(**dict(k, scalars=True, reuse=.4)), tag='c21s', start=200000), per_tu=20)
    r.gen('own-types-custom', ac.batch(r.seed, r.n(120, 2500), P(**dict(k, algs=CUSTOM, vtypes=['float', 'double'])), tag='c21c', start=300000), per_tu=20)
    r.gen('own-types-conformal', ac.batch(r.seed, r.n(40, 700), P(**dict(k, algs=[CGA], nodes=(1, 3), inputs=(1, 3))), tag='c21g', start=400000), per_tu=8)
    r.gen('own-types-clang', ac.batch(r.seed, r.n(60, 1000), P(**k), tag='c21l', start=500000), cc=CLANG, flags=('-O2',), per_tu=20)
    return RULE_GEN, ASSUME


def c22(r):
    """the same small functions from headers alone, and from programs that mix headers, orders, compilers and translation units"""
    import compose as co
    rng = random.Random(f'{r.seed}/c22')
    trials = 6
    base = {}
    part = dict(name='compositions', kind='multi-unit programs', programs=0)
    r.parts.append(part)

    def build(tag, units):
        """units: [(names, headers, inline, compiler, flags)]; returns {(module, unit, trial): values} or None"""
        d = os.path.join(r.dir, tag)
        os.makedirs(d, exist_ok=True)
        files = {f'unit{k}.cpp': co.unit(rng, k, u[0], u[1], u[2]) for k, u in enumerate(units)}
        files['main.cpp'] = co.main_unit([(k, u[0]) for k, u in enumerate(units)], r.seed, trials)
        for f, t in files.items():
            with open(os.path.join(d, f), 'w') as h:
                h.write(t)
        desc = '; '.join(f'unit {k} ({u[3]} {" ".join(u[4])}: {", ".join(u[1])}) defines {", ".join(u[0])}' for k, u in enumerate(units))
        objs, cmds, res = [], [], None
        try:
            for k, u in enumerate(units + [([], [], (), GCC, ('-O0', '-std=c++17'))]):
                src = os.path.join(d, f'unit{k}.cpp' if k < len(units) else 'main.cpp')
                rc, err, cmd = r.compile(src, src[:-4] + '.o', u[3], list(u[4]) + ['-c'])
                objs.append(src[:-4] + '.o')
                cmds.append(' '.join(cmd))
                if rc is None or (rc and RESOURCE.search(err)):
                    r.unsure(f'{tag}: compiler gave up')
                    return None
                if rc:
                    e = [x for x in err.splitlines() if 'error' in x][:2]
                    r.violate('compile', f'a translation unit does not compile: {" | ".join(e)}: {desc}', files, '\n'.join(cmds), err[:4000])
                    return None
            exe = os.path.join(d, 'prog')
            p_ = subprocess.run([GCC] + objs + ['-o', exe], capture_output=True, text=True, errors='replace')
            cmds.append(' '.join([GCC] + objs + ['-o', exe]))
            if p_.returncode:
                e = [x for x in p_.stderr.splitlines() if 'multiple definition' in x or 'undefined' in x or 'error' in x][:2]
                r.violate('link', f'the program does not link: {" | ".join(e)}: {desc}', files, '\n'.join(cmds), p_.stderr[:4000])
                return None
            rc, out, err = r.execute([exe])
            if rc != 0:
                r.violate('run', f'the program ended with {rc}: {desc}', files, '\n'.join(cmds), out[-1000:] + err[-2000:])
                return None
            res = {}
            for l in out.splitlines():
                w = l.split()
                if w[:1] == ['R']:
                    res[(w[1], int(w[2]), int(w[3]))] = [float(x) for x in w[4:]]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res, files, cmds, desc

    def alone(m):
        got = build('alone-' + m, [([m], co.MODULES[m][0], (), GCC, ('-O0', '-std=c++17'))])
        if got:
            for (m_, _, t), v in got[0].items():
                base[(m_, t)] = v
                with r.lock:
                    r.evals += 1
                    r.distinct += 1
    list(r.pool.map(alone, sorted(co.MODULES)))
    plan = []
    for i in range(r.n(60, 800)):
        plan.append((f'mix-{i}', [(a, b, c, rng.choice([GCC, CLANG]), rng.choice([('-O0', '-std=c++17'), ('-O0', '-std=c++17'), ('-O1', '-std=c++17'), ('-O0', '-std=c++20')])) for a, b, c in co.program(rng)]))
    for i, h in enumerate(co.HEADERS):       # every header first, with everything after it, twice in one program
        rest = [x for x in co.HEADERS if x != h]
        rng.shuffle(rest)
        names = rng.sample(sorted(co.MODULES), 3)
        plan.append((f'first-{h}', [(names, [h] + rest, (names[0],), GCC, ('-O0', '-std=c++17')), (names[:1], rest + [h], (names[0],), CLANG, ('-O0', '-std=c++17'))]))

    def one(it):
        if r.stop():
            return
        got = build(*it)
        if not got:
            return
        res, files, cmds, desc = got
        with r.lock:
            part['programs'] += 1
            r.counts['translation units linked together'] = r.counts.get('translation units linked together', 0) + len(it[1])
        for (m, u, t), v in sorted(res.items()):
            with r.lock:
                r.evals += 1
                r.distinct += 1
            if (m, t) in base and not co.close(v, base[(m, t)]):
                r.violate('values', f'function "{m}" gives {v[:12]} in unit {u}, and {base[(m, t)][:12]} when its header is included alone: {desc}', files, '\n'.join(cmds), '')
                return
    list(r.pool.map(one, plan))

    def macros(h):
        """what is still defined after a header, by lines of the repository itself, outside the library's prefix"""
        src = os.path.join(r.dir, f'macros-{h}.cpp')
        with open(src, 'w') as f:
            f.write(f'#include <gal/{h}.hpp>\n')
        for cxx in (GCC, CLANG):
            p_ = subprocess.run([cxx, '-std=c++17', '-E', '-dD', '-I', os.path.join(REPO, 'public'), src], capture_output=True, text=True, errors='replace')
            here, live = '', {}
            for l in p_.stdout.splitlines():
                m = re.match(r'# \d+ "([^"]*)"', l)
                if m:
                    here = m.group(1)
                m = re.match(r'#define (\w+)(\(| (?=\S))', l)
                if m and '/public/gal/' in here and not re.match(r'_*gal', m.group(1), re.I):
                    live[m.group(1)] = l
                m = re.match(r'#undef (\w+)', l)
                if m:
                    live.pop(m.group(1), None)
            with r.lock:
                r.evals += 1
                r.distinct += 1
            if live:
                r.violate('macro', f'after <gal/{h}.hpp>, the program\'s own uses of these words are replaced: {sorted(live.values())[:5]}', {f'macros-{h}.cpp': f'#include <gal/{h}.hpp>\n'}, f'{cxx} -std=c++17 -E -dD -I {REPO}/public macros-{h}.cpp', '')
                return
    list(r.pool.map(macros, co.HEADERS))
    return ('An evaluation is one function of a translation unit called on one input vector in a linked program of several units, compared with the same function built from its header alone; '
            'distinct counts distinct (program, unit, function, input).', ['the compilers and the linker are right'])


def large_sum(pr, rng, n):
    """a sum of n terms, associated at random"""
    xs = [pr.random_input(4) if rng.random() < .7 else pr.float_input() for _ in range(rng.randint(2, 6))]
    terms = []
    for _ in range(n):
        k = rng.random()
        a, b = rng.choice(xs), rng.choice(xs)
        t = a if k < .4 else pr.binary(rng.choice(['*', '^', '|', '*']), a, b) if k < .75 else pr.literal() if k < .9 and pr.alg.lits else pr.unary('~', a)
        if rng.random() < .5:
            t = pr.unary('scale', t, rng.choice([-4, -3, -2, 2, 3, 5]))
        terms.append(t)
    how = rng.randrange(3)
    while len(terms) > 1:
        if how == 0:
            i = 0
        elif how == 1:
            i = len(terms) - 2
        else:
            i = rng.randrange(len(terms) - 1)
        terms[i:i + 2] = [pr.binary(rng.choice('++-'), terms[i], terms[i + 1])]
    return terms[0]


def chain(pr, rng):
    """one operator over many factors, grouped in any way"""
    A, B, U = pr.alg, pr.binary, pr.unary
    op = rng.choice(['^', '^', '^', '&', '&', '*', '*', '>>', '|', '%', 'mixed'])
    n = rng.randint(4, 9)
    gens = list(range(A.dim))
    rng.shuffle(gens)
    xs = []
    for i in range(n):
        k = rng.random()
        if op in '^&' and op != 'mixed':
            if i < A.dim and k < .8:    # a fresh generator each, so that the product does not vanish
                e = 1 << gens[i]
                es = [e if op == '^' else A.size - 1 - e]
                if k < .45:
                    f = rng.randrange(A.size)
                    es = sorted({es[0], f if rng.random() < .5 else 1 << rng.randrange(A.dim)})
                x = pr.entity_input(es)
            else:
                x = pr.float_input() if op == '^' else pr.entity_input([A.size - 1]) if rng.random() < .7 else pr.entity_input([0, A.size - 1])
        else:
            x = pr.float_input() if k < .15 else pr.entity_input(sorted(rng.sample(range(A.size), min(A.size, rng.choice([1, 1, 2])))))
        if rng.random() < .15:
            x = U('scale', x, rng.choice([-1, 2, -3]))
        elif rng.random() < .1:
            x = U(rng.choice(['~', 'neg']), x)
        elif rng.random() < .06 and pr.alg.lits:
            x = pr.literal()
        xs.append(x)
    if op == '^' and rng.random() < .5:
        rng.shuffle(xs)

    def join(a, b):
        return B(rng.choice(['^', '*', '>>', '|', '&', '+', '-']) if op == 'mixed' else op, a, b)
    how = rng.randrange(4)
    while len(xs) > 1:
        if how == 0:
            xs[:2] = [join(xs[0], xs[1])]
        elif how == 1:
            xs[-2:] = [join(xs[-2], xs[-1])]
        elif how == 2:
            i = rng.randrange(len(xs) - 1)
            xs[i:i + 2] = [join(xs[i], xs[i + 1])]
        else:
            xs = [join(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def large_cases(r, count, kind, start, salt='c20'):
    rng = random.Random(f'{r.seed}/{salt}/{kind}')
    out = []
    while len(out) < count:
        A = rng.choice(STD + CUSTOM[:8])
        pr = Prog(A, rng)
        B, U = pr.binary, pr.unary
        if kind == 'chains':
            A = rng.choice(STD + CUSTOM[6:] + HIGH * 3 if rng.random() < .8 else CUSTOM)
            pr = Prog(A, rng)
            roots = [chain(pr, rng)]
        elif kind == 'towers':      # functions and quotients on top of each other
            xs = [pr.float_input() if rng.random() < .8 else pr.scalar_input() for _ in range(rng.randint(1, 4))]
            e, below = xs[0], []
            for _ in range(rng.randint(4, 13)):
                y = rng.choice(xs if rng.random() < .8 or not below else below)
                below.append(e)
                if pr.tree_size(e) + pr.tree_size(y) > 60:
                    continue
                k = rng.choice([-3, -2, -1, 1, 2, 3, 5])
                w = rng.choice(['x/y', 'x/y', 'y/x', 'k/x', 'x/k', 'sin', 'cos', 'tan', 'sqrt', 'root', 'root', 'x*y', 'x+y', 'x+k', 'k*x', 'const'])
                e = B('/', e, y) if w == 'x/y' else B('/', y, e) if w == 'y/x' else U('i/', e, k) if w == 'k/x' else U('divi', e, abs(k) + 1) if w == 'x/k' else \
                    U(w, e, k) if w in ('sin', 'cos', 'tan', 'sqrt') else U('sqrt', U('i+', B('*', e, e), abs(k)), 1) if w == 'root' else B('*', e, y) if w == 'x*y' else \
                    B(rng.choice('+-'), e, y) if w == 'x+y' else U(rng.choice(['i+', '+i', 'i-', '-i']), e, k) if w == 'x+k' else U('scale', e, k) if w == 'k*x' else U(rng.choice(['k*', '*k', '/k']) + rng.choice('pe'), e, k)
                if not e.val or pr.tree_size(e) > 60 or e.deg > 14:     # a sum may vanish as it is written
                    e = below[-1]
            roots = [e] if rng.random() < .6 else [e, rng.choice(below)] if rng.random() < .5 else [B('*', pr.random_input(3), e)]
        elif kind == 'sums':
            roots = [large_sum(pr, rng, rng.randint(10, r.n(28, 50)))]
        elif kind == 'powers':
            x = pr.float_input()
            y = pr.float_input() if rng.random() < .5 else pr.random_input(3)
            n = rng.randint(5, 26)
            e = x
            how = rng.randrange(4)
            if how == 0:            # chain
                for _ in range(n - 1):
                    e = B('*', e, x)
            elif how == 1:          # chain from the other side, another factor in between
                at = rng.randrange(n)
                for i in range(n - 1):
                    e = B('*', x, e)
                    if i == at:
                        e = B('*', e, y)
            elif how == 2:          # square and multiply
                for bit in bin(n)[3:]:
                    e = B('*', e, e)
                    if bit == '1':
                        e = B('*', e, x)
            else:                   # several powers in one sum
                e = None
                p_ = x
                for i in range(min(n, 12)):
                    p_ = B('*', p_, x)
                    t = U('scale', p_, rng.choice([1, -1, 2, 3]))
                    e = t if e is None else B(rng.choice('+-'), e, t)
            roots = [e if rng.random() < .5 else B('*', e, y)]
        elif kind == 'wide':        # many inputs, many results
            xs = [mixed_input(pr) for _ in range(rng.randint(8, 16))]
            roots = []
            for _ in range(rng.randint(4, 12)):
                a, b, c = (rng.choice(xs) for _ in range(3))
                roots.append(rng.choice([a, B('+', a, b), B('*', a, b), B('-', B('^', a, b), c), U('scale', B('+', a, c), 3)]))
            if rng.random() < .6:
                e = xs[0]
                for x in xs[1:]:
                    e = B('+', e, x)
                roots[rng.randrange(len(roots))] = e
        elif kind == 'deep':        # long chains of unary and binary steps
            a, b = pr.random_input(4), pr.random_input(3)
            e = a
            for _ in range(rng.randint(15, 40)):
                k = rng.random()
                e = U('~', e) if k < .2 else U('!', e) if k < .35 else U('neg', e) if k < .5 else U('scale', e, rng.choice([2, -1, -1, 3])) if k < .56 else \
                    U('divi', e, 2) if k < .6 else B('+', e, b) if k < .8 else B('-', b, e) if k < .9 else B('^', e, pr.literal() if A.lits else b)
            roots = [e]
        elif kind == 'dense':
            full = list(range(A.size))
            if A.dim <= 3:
                a, b, c = (pr.entity_input(full) for _ in range(3))
                e = B('*', B(rng.choice('*^'), a, b), c) if rng.random() < .5 else B('+', B('*', a, b), B(rng.choice(['*', '|', '^', '>>']), b, c))
            else:
                a, b = pr.entity_input(full), pr.entity_input(full)
                e = B(rng.choice(['*', '*', '+', '-', '^']), a, b)
                if A.dim == 4 and rng.random() < .6:
                    e = B('+', e, U('~', a))
            roots = [e]
        else:                       # powers of sums
            a, b = pr.random_input(2), pr.random_input(2)
            s = B('+', a, b) if rng.random() < .7 else pr.random_input(3)
            e = s
            for _ in range(rng.randint(2, 5)):
                e = B('*', e, s)
            roots = [e]
        if any(x.den > 900 or getattr(x, 'num', 0) > 10**6 for x in roots):
            continue
        _, work, mx, dup, _ = pr.analyse(roots)
        if mx > 3000 or work > 30000:
            continue
        i = start + len(out)
        # the same object passed twice counts as two inputs: cancellation between them is not expected
        sup = ac.support_of(pr, roots) if not dup and all(x.poly for x in roots) and all(x.alias is None for x in pr.inputs) else None
        out.append((i, ac.case_cpp(i, pr, roots, let=rng.random() < .5, support=sup)))
    return out


def huge_cases(r, count, start):
    """far beyond ordinary size in one direction: inputs, results, degree, summands, factors"""
    rng = random.Random(f'{r.seed}/c20/huge')
    out = []
    while len(out) < count:
        kind = ('inputs', 'results', 'degree', 'summands', 'literals', 'nested', 'monomials', 'elements')[len(out) % 8]
        A = rng.choice(STD)
        pr = Prog(A, rng)
        B, U = pr.binary, pr.unary
        if kind == 'inputs':
            pick = rng.choice((lambda: pr.float_input(), lambda: pr.random_input(3), lambda: mixed_input(pr)))
            xs = [pick() for _ in range(rng.randint(34, 70))]
            e = xs[0]
            for x in rng.sample(xs[1:], len(xs) - 1):
                t = x if rng.random() < .5 else U('scale', x, rng.choice([-3, -2, 2, 3, 5]))
                e = B(rng.choice('++-'), e, t)
            roots = [e] if rng.random() < .5 else [e, xs[-1], B('*', xs[-1], xs[0])]
        elif kind == 'results':
            xs = [pr.random_input(3) for _ in range(rng.randint(2, 5))]
            roots = [rng.choice([a, U('scale', a, rng.randint(2, 40)), B('+', U('scale', a, rng.randint(2, 40)), b), B('^', a, b)])
                     for a, b in ((rng.choice(xs), rng.choice(xs)) for _ in range(rng.randint(20, 40)))]
        elif kind == 'degree':
            x, y = pr.float_input(), pr.float_input()
            n = rng.randint(34, 120)
            fs = [x] * n + [y] * rng.choice([0, 1, 5, 33])
            rng.shuffle(fs)
            e = fs[0]
            for f in fs[1:]:
                e = B('*', e, f)
            roots = [e]
        elif kind in ('summands', 'literals'):
            vs = [pr.float_input() for _ in range(4)]
            terms, deg = [], rng.choice([3, 4])
            seen = set()
            while len(terms) < rng.randint(40, 64):
                m = tuple(sorted(rng.choices(range(4), k=rng.randint(1, deg))))
                if m in seen:
                    if len(seen) > 30:
                        break
                    continue
                seen.add(m)
                e = vs[m[0]]
                for i in m[1:]:
                    e = B('*', e, vs[i])
                if kind == 'literals':
                    e = B('*', e, pr.literal(k=1))
                terms.append(U('scale', e, rng.choice([-3, -2, 2, 3, 4, 5, 7])))
            e = terms[0]
            for t in terms[1:]:
                e = B(rng.choice('++-'), e, t)
            roots = [e]
        elif kind == 'monomials':   # more than 255 of them in one coefficient
            n, k = rng.choice([(11, 3), (12, 3), (23, 2), (24, 2)])
            vs = [pr.float_input() for _ in range(n)]
            e = None
            for f in range(k):
                t = U('scale', vs[0], f + 2)
                for v in rng.sample(vs[1:], n - 1):
                    t = B(rng.choice('++-'), t, v)
                e = B('*', e, t) if e else t
            roots = [e]
        elif kind == 'elements':    # an entity of up to 256 components
            A = Alg('wide8', *rng.choice([(8, 0, 0), (6, 1, 1), (4, 4, 0), (0, 7, 1)]))
            pr = Prog(A, rng)
            B, U = pr.binary, pr.unary
            a = pr.entity_input(sorted(rng.sample(range(256), rng.choice([130, 200, 255, 256]))))
            b = pr.entity_input(sorted(rng.sample(range(256), rng.choice([1, 40, 256]))))
            roots = [rng.choice([a, U('~', a), U('!', a), B('+', a, U('scale', b, 3)), B('-', b, a), B('*', pr.float_input(), a), U('grade', a, 4)])]
        else:                       # many factors in one wedge and product
            xs = [pr.random_input(2) for _ in range(3)]
            e = pr.float_input()
            for _ in range(rng.randint(34, 60)):
                k = rng.random()
                s_ = pr.inputs and rng.choice(xs)
                e = B('^', e, pr.float_input()) if k < .25 and len(pr.inputs) < 12 else U('~', e) if k < .4 else U('neg', e) if k < .5 else \
                    U('!', U('!', e)) if k < .6 else B('+', e, s_) if k < .9 else B('-', s_, e)
            roots = [e]
        if any(x.den > 900 or getattr(x, 'num', 0) > 10**6 for x in roots):
            continue
        _, work, mx, dup, _ = pr.analyse(roots)
        if mx > 1500 or work > 30000:
            continue
        i = start + len(out)
        sup = ac.support_of(pr, roots) if not dup and all(x.poly for x in roots) and all(x.alias is None for x in pr.inputs) else None
        out.append((i, ac.case_cpp(i, pr, roots, let=False, support=sup)))
    return out


def c20(r):
    r.gen('huge', huge_cases(r, r.n(32, 320), 90000), per_tu=1, trials=8)
    for k, (kind, q, t, per) in enumerate((('sums', 60, 800, 2), ('powers', 120, 1500, 5), ('wide', 60, 800, 3), ('deep', 100, 1500, 4), ('dense', 40, 500, 2), ('expansions', 60, 800, 3), ('chains', 150, 2400, 5))):
        r.gen('large-' + kind, large_cases(r, r.n(q, t), kind, k * 10000), per_tu=per, trials=8)
    return RULE_GEN, ASSUME


def c19(r):
    ub = ('-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all')
    n = r.n(20000, 300000)
    hs = [dict(name='lists', src='lists.cpp', internal=True, strict=True, flags=ub, runs=[(r.seed * 100, 2000)] + [(r.seed * 100 + i, n, m) for i, m in enumerate(('sort', 'pow', 'words', 'stack', 'tuple'), 1)]),
          dict(name='lists-clang', src='lists.cpp', cc=CLANG, internal=True, strict=True, flags=('-O2',), runs=[(r.seed * 100 + 50, n // 4)])]
    r.harnesses(hs)
    return ('An evaluation is one range sorted three ways, one power, one word, one stack state or one tuple; distinct counts distinct inputs.', ['the C++ standard library is right', ASSUME[1]])


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    if pid == 'setup':
        for t in (GCC, CLANG, 'valgrind'):
            if not shutil.which(t):
                print(f'missing tool {t}')
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for attempt in (0, 1):
        r = Run(pid, tier, seed)
        try:
            rule, assume = CHECKS[pid](r)
            return r.finish(rule, assume)
        except Exception:
            import traceback
            traceback.print_exc()
            if r.viols:
                return r.finish('stopped early by an internal error of the check', ['see the log'])
            shutil.rmtree(r.dir, ignore_errors=True)
    return 2


if __name__ == '__main__':
    sys.exit(main())
