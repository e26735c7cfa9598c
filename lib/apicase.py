"""Turns generated expressions into C++ cases that watch the library against the reference."""
from galgen import *


def case_cpp(idx, prog, roots, let=True, support=None, label=None, extra=0):
    """C++ source of one case function. support: exact element lists per root, or None."""
    A, V = prog.alg, prog.vtype
    lam, refstm, refouts = prog.emit(roots, let)
    label = label or (lam.split('{', 1)[1].rsplit('}', 1)[0].strip())
    desc = f'#{idx} {A.key} {V} inputs({", ".join(i.ctype.replace("gal::", "") for i in prog.inputs)}): {label}'
    desc = desc.replace('\\', '\\\\').replace('"', '\\"').replace('[[maybe_unused]] ', '')
    o = [f'static void case_{idx}(Ctx& c_)', '{', '    using namespace gal;']
    if A.ns:
        o.append(f'    using namespace gal::{A.ns};')
    o.append(f'    static const ref::Table T({A.sigc});')
    o.append(f'    c_.cur = "{desc}";')
    o.append(f'    c_.extra = {extra}L;' if extra else '    c_.extra = 0;')
    for i in prog.inputs:
        if i.ctor == 'custom' and i.alias is None:
            o.append('    ' + i.define(A, V))
    n = sum(i.n for i in prog.inputs if i.alias is None)
    o.append(f'    for (int trial_ = 0; trial_ < c_.trials; ++trial_)')
    o.append('    {')
    o.append(f'        ref::Rng g_(c_.seed * 1000003 + {idx} * 7919 + trial_);')
    o.append(f'        double d_[{max(1, n)}] = {{}};')
    o.append(f'        fill_values<{V}>(g_, d_, {n}, trial_);')
    deg = max([x.deg for x in roots] + [0])
    if deg > 14:
        o.append(f'        tame_values<{V}>(d_, {n}, {deg});')
    k = 0
    args = []
    for i, inp in enumerate(prog.inputs):
        if inp.alias is not None:
            inp.off = prog.inputs[inp.alias].off
            args.append(f'x{inp.alias}')
            continue
        vals = ', '.join(f'({V})d_[{k + j}]' for j in range(inp.n))
        if inp.ctor == 'float':
            o.append(f'        {V} x{i} = {vals};')
        elif inp.ctor == 'agg':
            o.append(f'        {inp.ctype} x{i}{{{{{vals}}}}};' if inp.n else f'        {inp.ctype} x{i}{{}};')
        elif inp.ctor in ('raw', 'custom'):
            o.append(f'        {inp.ctype} x{i}{{{"0, 0, 0, 0" if inp.ctor == "raw" else ""}}};')
            for j in range(inp.n):
                o.append(f'        x{i}[{j}] = ({V})d_[{k + j}];')
        else:
            o.append(f'        {inp.ctype} x{i}{{{vals}}};')
        inp.off = k
        k += inp.n
        args.append(f'x{i}')
    o.append(f'        auto r_ = {A.compute}({lam}, {", ".join(args)});')
    o.append('        g_bad = false;')
    o.append('        auto want_ = [&]() -> std::vector<M> {')
    for i, inp in enumerate(prog.inputs):
        o.append(f'            M x{i}(T);')
        for e, nu, de, ix in inp.mapping:
            prod = ''.join(f' * EV(d_[{inp.off + j}])' for j in ix)
            o.append(f'            x{i}[{e}] = x{i}[{e}] + EV({nu}.0L / {de}){prod};')
        if A.null:
            o.append(f'            x{i} = to_nat(x{i});')
    if refstm:
        o.append(f'            {refstm}')
    outs = [f'to_null({r})' if A.null else r for r in refouts]
    o.append(f'            return std::vector<M>{{{", ".join("M(" + r + ")" for r in outs)}}};')
    o.append('        }();')
    o.append('        if (g_bad) { ++c_.skipped; continue; }')
    o.append(f'        c_.R.eval(hash_doubles(d_, {max(1, n)}, {idx}));')
    if len(roots) == 1:
        o.append(f'        bool ok_ = check_entity<{V}>(c_, r_, want_[0]);')
        if support:
            o.append(f'        if (trial_ == 0) ok_ = check_support(c_, r_, {{{", ".join(map(str, support[0]))}}}) && ok_;')
    else:
        o.append('        bool ok_ = true;')
        for i in range(len(roots)):
            o.append(f'        ok_ = check_entity<{V}>(c_, std::get<{i}>(r_), want_[{i}], "result {i}") && ok_;')
            if support:
                o.append(f'        if (trial_ == 0) ok_ = check_support(c_, std::get<{i}>(r_), {{{", ".join(map(str, support[i]))}}}) && ok_;')
    o.append('        if (!ok_) break;')
    o.append('    }')
    o.append('}')
    return '\n'.join(o) + '\n'


def tu_source(cases):
    """cases: list of (idx, source)"""
    body = ''.join(s for _, s in cases)
    calls = '\n'.join(f'    if (c.only.empty() || c.only == "{i}") {{ uint64_t v0 = c.R.viols; case_{i}(c); if (c.R.viols != v0) printf("CASE {i}\\n"); c.R.count("cases"); }}' for i, _ in cases)
    return f'''#include "api.hpp"
{body}
int main(int argc, char** argv)
{{
    Ctx c;
#ifdef NOTE_ELEMS
    c.elems  = true;
#endif
    c.seed   = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    c.trials = argc > 2 ? atoi(argv[2]) : 18;
    c.only   = argc > 3 ? argv[3] : "";
{calls}
    c.R.count("compared", c.compared);
    c.R.count("skipped", c.skipped);
    return c.R.finish();
}}
'''


def call_cpp(idx, prog, roots, let=True):
    """C++ source of one call as a type (inputs, how to build them, how to evaluate), for the monitors in calls.hpp"""
    A, V = prog.alg, prog.vtype
    lam, _, _ = prog.emit(roots, let)
    label = lam.split('{', 1)[1].rsplit('}', 1)[0].strip()
    desc = f'#{idx} {A.key} {V} inputs({", ".join(i.ctype.replace("gal::", "") for i in prog.inputs)}): {label}'
    desc = desc.replace('\\', '\\\\').replace('"', '\\"').replace('[[maybe_unused]] ', '')
    n = sum(i.n for i in prog.inputs if i.alias is None)
    o = [f'namespace n_{idx} {{', 'using namespace gal;']
    if A.ns:
        o.append(f'using namespace gal::{A.ns};')
    o += ['struct call', '{', f'    static constexpr int id = {idx}, n = {n};', f'    using V = {V};',
          f'    static char const* name() {{ auto c_cur = "{desc}"; return c_cur; }}', '    struct In', '    {']
    for i, inp in enumerate(prog.inputs):
        if inp.alias is None:
            o.append(f'        {V if inp.ctor == "float" else inp.ctype} x{i};')
    o += ['    };', '    static void fill(void* at_, V const* d_)', '    {', '        In* in_ = new (at_) In{']
    k, args, raw = 0, [], []
    for i, inp in enumerate(prog.inputs):
        if inp.alias is not None:
            args.append(f'in_.x{inp.alias}')
            continue
        vals = ', '.join(f'd_[{k + j}]' for j in range(inp.n))
        if inp.ctor == 'float':
            o.append(f'            {vals},')
        elif inp.ctor == 'agg':
            o.append(f'            {inp.ctype}{{{{{vals}}}}},' if inp.n else f'            {inp.ctype}{{}},')
        elif inp.ctor == 'raw':
            o.append(f'            {inp.ctype}{{0, 0, 0, 0}},')
            raw += [f'        in_->x{i}[{j}] = d_[{k + j}];' for j in range(inp.n)]
        else:
            o.append(f'            {inp.ctype}{{{vals}}},')
        k += inp.n
        args.append(f'in_.x{i}')
    o += ['        };', '        (void)in_;'] + raw + ['    }', f'    static auto run(In const& in_) {{ return {A.compute}({lam}, {", ".join(args)}); }}', '};', '}']
    return '\n'.join(o) + '\n'


def call_tu(cases):
    body = ''.join(s for _, s in cases)
    calls = ', '.join(f'n_{i}::call' for i, _ in cases)
    return f'''#include "calls.hpp"
{body}
int main(int argc, char** argv) {{ return drive<{calls}>(argc, argv); }}
'''


def support_of(prog, roots):
    out = []
    for r in roots:
        v = prog.alg.to_null(r.val) if prog.alg.null else r.val
        out.append(sorted(v))
    return out


# ------------------------------------------------------------------ random programs
class Profile:
    def __init__(self, **kw):
        self.bins = ['*'] * 3 + ['+'] * 3 + ['-'] * 2 + ['^'] * 2 + ['>>', '|', '&', '%', 'sp']
        self.uns = ['~', '!', 'neg', 'scale', 'divi', 'comp', 'grade', 'int']
        self.p_un = 0.35
        self.p_lit = 0.12
        self.scalars = False      # division and transcendental functions
        self.nodes = (1, 7)
        self.results = 1
        self.inputs = (1, 3)
        self.reuse = 0.2
        self.max_mons = 220
        self.max_work = 500
        self.max_tree = 40
        self.vtypes = ['double']
        self.algs = STD
        self.max_in = 4
        self.no_dup = False
        self.need_dup = False
        self.need_poly = False
        self.need_nonzero = False
        self.input_fn = None
        self.scales = [-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7]
        self.divs = [-3, -2, -1, 1, 2, 2, 3, 4, 5]
        self.trig_ok = True
        self.ints = list(range(-5, 6))
        self.lit_ks = None
        self.max_num = 2 ** 20
        self.__dict__.update(kw)


def random_prog(rng, pf):
    """returns (prog, roots) or None"""
    A = rng.choice(pf.algs)
    pr = Prog(A, rng, rng.choice(pf.vtypes))
    ni = rng.randint(*pf.inputs)
    for _ in range(ni):
        (pf.input_fn or (lambda p: p.random_input(pf.max_in)))(pr)
    if pf.scalars and not any(n.val.keys() == {0} for n in pr.nodes):
        pr.float_input()
    pool = list(pr.nodes)
    inputs_only = list(pool)
    budget = 2000 if A.dim >= 5 else 10 ** 9
    want = rng.randint(*pf.nodes)
    made = []
    tries = 0

    def pick():
        if A.lits and rng.random() < pf.p_lit:
            return pr.literal(k=rng.choice(pf.lit_ks) if pf.lit_ks else None)
        if made and rng.random() < 0.6:
            return rng.choice(made[-3:])
        if made and rng.random() < pf.reuse:
            return rng.choice(made)
        return rng.choice(pool)

    def pick_scalar():
        c = [n for n in pool if n.val.keys() == {0} and n.sup <= {0}]
        return rng.choice(c[-4:] if rng.random() < .5 else c) if c else None

    def bare(n):
        """a user-defined input of several factors or summands, at most scaled (not usable as a divisor: known findings)"""
        if n.leaf:
            m = pr.inputs[n.key[1]].mapping if n.op == 'in' and pr.inputs[n.key[1]].ctor == 'custom' else []
            return len(m) > 1 or any(len(set(x[3])) > 1 for x in m)
        live = [x for x in n.args if x.val]
        return n.op not in ('comp', 'grade') and len(live) == 1 and bare(live[0])
    while len(made) < want and tries < 60:
        tries += 1
        a = pick()
        n = None
        mark = len(pr.nodes)
        if pf.scalars and rng.random() < 0.4:
            s = pick_scalar()
            k = rng.choice([-3, -2, -1, 1, 2, 3])
            w = rng.choice(['/'] * 3 + ['i/', 'i/', 'sin', 'cos', 'tan', 'sqrt', 'sqrt', 'sqrt', 'comp', 'comp', 'const', 'const', 'const', 'k/'])
            if w in ('const', 'k/'):
                w = ('k/' if w == 'k/' else rng.choice(['k*', '*k', '/k'])) + rng.choice('pe') + ''.join(rng.choice(['n*', '*n', '/n']) for _ in range(rng.choice((0, 1, 1, 2, 2, 3))))

            if w == 'comp':
                n = pr.unary('comp', a, rng.choice(sorted(a.val) or [0]))
            elif w[:2] in ('k*', '*k', '/k') and len(w) > 1:
                n = pr.unary(w, a, k)
            elif s is None or '/' in w and bare(s):
                continue
            elif w == '/':
                if not a.val and rng.random() < .8:
                    continue
                n = pr.binary('/', a, s)
            else:
                n = pr.unary(w, s, k)
        elif rng.random() < pf.p_un:
            u = rng.choice(pf.uns)
            if u == 'scale':
                n = pr.unary(u, a, rng.choice(pf.scales))
            elif u == 'divi':
                n = pr.unary(u, a, rng.choice(pf.divs))
            elif u == 'comp':
                src = A.to_null(a.val) if A.null else a.val
                e = rng.choice(sorted(src)) if src and rng.random() < .8 else rng.randrange(A.size)
                n = pr.unary(u, a, e)
            elif u == 'grade':
                gs = sorted({pc(e) for e in a.val})
                n = pr.unary(u, a, rng.choice(gs) if gs and rng.random() < .8 else rng.randint(0, A.dim))
            elif u == 'int':
                n = pr.unary(rng.choice(['i+', '+i', 'i-', '-i']), a, rng.choice(pf.ints))
            else:
                n = pr.unary(u, a)
        else:
            b = pick()
            op = rng.choice(pf.bins)
            if op == '/':
                b = pick_scalar()
                if b is None:
                    continue
            n = pr.binary(op, a, b)
        if n.den > 512 or n.num * (n.den if n.num > 2 ** 20 else 1) > pf.max_num or pr.tree_size(n) > pf.max_tree or n.deg > 12 or \
                (not n.val and rng.random() < .7) or n.leaf:
            del pr.nodes[mark:]
            continue
        _, work, mx, _, _ = pr.analyse([n])
        if mx > pf.max_mons or work > pf.max_work:
            del pr.nodes[mark:]
            continue
        made.append(n)
        pool.append(n)
    if not made:
        return None
    nr = pf.results if isinstance(pf.results, int) else rng.choice(pf.results)
    roots = [made[-1]]
    while len(roots) < nr:
        roots.append(rng.choice(made + [rng.choice(pool)]))
    rng.shuffle(roots)
    # a bare input or literal is a legitimate result too
    _, work, mx, dup, _ = pr.analyse(roots)
    if work > pf.max_work * max(1, nr) or sum(pr.tree_size(r) for r in roots) > pf.max_tree * max(1, nr):
        return None
    if pf.no_dup and dup:
        return None
    if pf.need_dup and dup < 2:
        return None
    if pf.need_poly and not all(r.poly for r in roots):
        return None
    if pf.need_nonzero and not all(r.val for r in roots):
        return None
    return pr, roots


def twin(pr, root):
    """the same expression with one spot changed, or None"""
    rng, A = pr.rng, pr.alg
    spots = []

    def walk(n, path):
        spots.append(path)
        for i, a in enumerate(n.args):
            walk(a, path + (i,))
    walk(root, ())
    if len(spots) > 400:
        return None
    path = rng.choice(spots[1:] or spots)

    def make(call, args):
        if call is None:
            return None
        ar, op, k = call
        need = args[-1] if op == '/' or op == 'i/' or op in UF or op[:2] == 'k/' else None
        if need is not None and not (need.val.keys() == {0} and need.sup <= {0}):
            return None
        return pr.binary(op, *args) if ar == 2 else pr.unary(op, args[0], k)

    def change(n):
        if n.leaf or not n.args:
            c = [m for m in pr.nodes if m.leaf and m.key != n.key and (m.val.keys() == {0}) == (n.val.keys() == {0})]
            return rng.choice(c) if c else None
        if not n.call:
            return None
        ar, op, k = n.call
        if ar == 2:
            if rng.random() < .4 and op not in '+/':
                return make(n.call, n.args[::-1])
            alt = {'*': '^|', '^': '*|', '|': ['*', '>>'], '>>': ['|', '*'], '+': '-', '-': '+', '&': '^*', '%': '*^', 'sp': '*'}.get(op)
            return make((2, rng.choice(list(alt)), None), n.args) if alt else None
        if op in ('scale', 'divi', 'i+', '+i', 'i-', '-i', 'i/'):
            return make((1, op, rng.choice([x for x in (-3, -2, 2, 3, 4, 5) if x != k])), n.args)
        if op == 'comp':
            c = [e for e in n.args[0].val if e != k] or [e for e in range(A.size) if e != k]
            return make((1, op, rng.choice(c)), n.args)
        if op == 'grade':
            return make((1, op, rng.choice([g for g in range(A.dim + 1) if g != k])), n.args)
        if op in UF:
            return make((1, rng.choice([f for f in UF if f not in (op, 'tan')]), None), n.args)
        if op in '~!':
            return make((1, '!' if op == '~' else '~', None), n.args)
        return n.args[0]

    def rebuild(n, path):
        if not path:
            return change(n)
        a = rebuild(n.args[path[0]], path[1:])
        if a is None or a is n.args[path[0]]:
            return None
        args = list(n.args)
        args[path[0]] = a
        return make(n.call, args)
    return rebuild(root, path)


def twins(seed, count, pf, start=0, tag=''):
    """expressions that hold two almost equal subexpressions, each several times"""
    rng = random.Random(f'{seed}/{tag}')
    out, seen, guard = [], set(), 0
    while len(out) < count and guard < count * 60:
        guard += 1
        r = random_prog(rng, pf)
        if not r or r[1][0].leaf:
            continue
        pr, (a,) = r[0], r[1][:1]
        b = twin(pr, a)
        if b is None or b.key == a.key or b.val == a.val or not a.val or not b.val:
            continue
        B, U = pr.binary, pr.unary
        x = rng.choice([n for n in pr.nodes if n.leaf])
        how = rng.randrange(7)
        sc = [n.val.keys() == {0} and n.sup <= {0} for n in (a, b)]
        if how == 0:
            roots = [a, b]
        elif how == 1:
            roots = [B('*', a, x), B('*', b, x), rng.choice((a, b))]
        elif how == 2:
            roots = [B('+', U('scale', a, 2), B('*', x, a)), B('-', b, B('*', x, b))]
        elif how == 3:
            roots = [B(rng.choice('*^'), a, b), B(rng.choice('+-'), a, b)]
        elif how == 4:
            roots = [B('+', a, U('scale', b, rng.choice((-2, 3)))), b, a]
        elif how == 5 and all(sc):
            f = rng.choice(('sin', 'sqrt', 'cos'))
            roots = [U(f, a), U(f, b), B('*', a, b)]
        elif how == 6 and all(sc):
            roots = [B('/', x, a), B('/', x, b), B('-', a, b)]
        else:
            roots = [b, a, b, a]
        _, work, mx, _, _ = pr.analyse(roots)
        if mx > pf.max_mons or work > pf.max_work * 3 or any(n.den > 512 or n.deg > 14 for n in roots) or sum(pr.tree_size(n) for n in roots) > pf.max_tree * 4:
            continue
        key = tuple(n.key for n in roots)
        if key in seen:
            continue
        seen.add(key)
        idx = start + len(out)
        out.append((idx, case_cpp(idx, pr, roots, let=rng.random() < .6)))
    return out


def batch(seed, count, pf, start=0, support=False, tag='', calls=False):
    """count distinct cases: list of (idx, source, key)"""
    rng = random.Random(f'{seed}/{tag}')
    out, seen = [], set()
    guard = 0
    while len(out) < count and guard < count * 200:
        guard += 1
        r = random_prog(rng, pf)
        if not r:
            continue
        pr, roots = r
        key = (pr.alg.key, pr.vtype, tuple(i.ctype + (str(i.mapping) if i.ctor == "custom" else "") for i in pr.inputs), tuple(x.key for x in roots))
        if key in seen:
            continue
        seen.add(key)
        idx = start + len(out)
        sup = None
        if support and all(x.poly for x in roots) and all(x.alias is None for x in pr.inputs):
            _, _, _, dup, _ = pr.analyse(roots)
            if not dup:
                sup = support_of(pr, roots)
        let = rng.random() < .7
        out.append((idx, call_cpp(idx, pr, roots, let) if calls else case_cpp(idx, pr, roots, let=let, support=sup)))
    return out


# ------------------------------------------------------------------ fixed shapes
def binary_case(idx, A, op, ea, eb, rng, vtype='double', support=False):
    pr = Prog(A, rng, vtype)
    x, y = pr.entity_input(sorted(ea)), pr.entity_input(sorted(eb))
    r = pr.binary(op, x, y)
    return idx, case_cpp(idx, pr, [r], support=support_of(pr, [r]) if support else None)


def unary_case(idx, A, op, ea, rng, k=None, vtype='double', support=False):
    pr = Prog(A, rng, vtype)
    r = pr.unary(op, pr.entity_input(sorted(ea)), k)
    return idx, case_cpp(idx, pr, [r], support=support_of(pr, [r]) if support else None)


def signatures(lo, hi):
    # metric<4, 1, 0> is the type of the conformal algebra, whose interface speaks the null basis
    return [CGA if (p, d - p - r, r) == (4, 1, 0) else Alg('m%d%d%d' % (p, d - p - r, r), p, d - p - r, r) for d in range(lo, hi + 1) for p in range(d + 1) for r in range(d - p + 1)]


# ------------------------------------------------------------------ programs written by the internal monitor
class Parse:
    """reads the text xfuzz prints for an expression and rebuilds it over small inputs of the public interface"""

    def __init__(self, text, alg, rng):
        self.t, self.i, self.alg, self.rng = text, 0, alg, rng
        import re
        names = sorted(set(re.findall(r'\b([sm])(\d+)', text)), key=lambda x: int(x[1]))
        self.pr = Prog(alg, rng)
        self.leaf = {}
        top = max([int(n) for _, n in names], default=-1)
        kinds = {int(n): k for k, n in names}
        for i in range(top + 1):
            if kinds.get(i, 's') == 's':
                self.leaf[i] = self.pr.float_input()
            else:
                k = rng.randint(2, 4)
                self.leaf[i] = self.pr.entity_input(sorted(rng.sample(range(alg.size), min(k, alg.size))))
        if not self.leaf:
            self.leaf[0] = self.pr.float_input()
        self.memo = {}

    def eat(self, s):
        if self.t.startswith(s, self.i):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise ValueError(f'expected {s} at {self.i} in {self.t}')

    def num(self):
        j = self.i
        if self.t[j:j + 1] == '-':
            j += 1
        while j < len(self.t) and self.t[j].isdigit():
            j += 1
        v = int(self.t[self.i:j])
        self.i = j
        return v

    def cons(self, k, *a):
        key = (k,) + tuple(x.i if isinstance(x, Node) else x for x in a)
        if key not in self.memo:
            self.memo[key] = self.pr.binary(k, *a) if len(a) == 2 and isinstance(a[1], Node) else self.pr.unary(k, *a)
        return self.memo[key]

    def expr(self):
        n = self.atom()
        while True:
            if self.t[self.i:self.i + 1] == '[':
                self.i += 1
                n = self.cons('comp', n, self.num())
                self.need(']')
            elif self.t[self.i:self.i + 1] == '<' and self.t[self.i + 1:self.i + 2].isdigit():
                self.i += 1
                n = self.cons('grade', n, self.num())
                self.need('>')
            else:
                return n

    def atom(self):
        for f in ('sin', 'cos', 'tan', 'sqrt'):
            if self.eat(f + '('):
                n = self.expr()
                self.need(')')
                return self.cons(f, n)
        if self.t[self.i] in 'sm':
            self.i += 1
            return self.leaf[self.num()]
        self.need('(')
        if self.eat('~'):
            n = self.cons('~', self.expr())
        elif self.eat('!'):
            n = self.cons('!', self.expr())
        elif self.eat('PI*'):
            n = self.cons('k*p', self.expr(), 1)
        elif self.t[self.i].isdigit() or (self.t[self.i] == '-' and self.t[self.i + 1].isdigit()):
            k = self.num()
            op = self.t[self.i]
            self.i += 1
            a = self.expr()
            n = self.cons({'*': 'scale', '/': 'i/', '+': 'i+', '-': 'i-'}[op], a, k)
        elif self.eat('-'):
            n = self.cons('neg', self.expr())
        else:
            a = self.expr()
            op = '>>' if self.eat('>>') else self.t[self.i]
            if op != '>>':
                self.i += 1
            rest = self.t[self.i:]
            if op == '*' and self.eat('E'):
                n = self.cons('*ke', a, 1)
            elif op == '/' and self.eat('PI'):
                n = self.cons('/kp', a, 1)
            elif op == '/' and self.eat('(2*E)'):
                n = self.cons('/ken*', a, 2)
            elif op == '*' and self.eat('1_b'):
                e = self.num()
                if e == 0:
                    n = self.cons('scale', a, 1)
                else:
                    nm = next(m for m, (x, s) in sorted(self.alg.lits.items()) if x == e and s == 1)
                    n = self.cons('*', a, self.pr.literal(nm, 1))
            elif op in '/+-' and (rest[0].isdigit() or (rest[0] == '-' and rest[1].isdigit())):
                k = self.num()
                n = self.cons({'/': 'divi', '+': '+i', '-': '-i'}[op], a, k)
            else:
                n = self.cons(op, a, self.expr())
        self.need(')')
        return n


def parse_cases(texts, alg, seed, start, variants=4):
    """public-interface programs equivalent to the texts of one (possibly multi-result) expression"""
    out = []
    for v in range(variants * 4):
        rng = random.Random(f'{seed}/{v}')
        try:
            p0 = Parse(' '.join(texts), alg, rng)
            roots = []
            for t in texts:
                p0.t, p0.i = t, 0
                roots.append(p0.expr())
        except (KeyError, ValueError):
            continue          # a divisor vanished for this choice of inputs, or unreadable
        if any(n.den > 512 or n.num > 2 ** 20 for n in p0.pr.nodes):
            continue
        _, work, mx, _, _ = p0.pr.analyse(roots)
        if mx > 400 or work > 1500:
            continue
        out.append((start + len(out), case_cpp(start + len(out), p0.pr, roots, let=v % 2 == 0)))
        if len(out) >= variants:
            break
    return out
