"""Generator of expressions over the library's public interface, with an exact reference.

Every expression is a small straight-line program (a DAG of operations). Each node carries its value
at one random point of the field Z/p (transcendental functions uninterpreted), so the generator knows
exactly which basis elements of a polynomial expression can be non-zero, which divisors vanish
identically, and roughly how expensive the expression is to compile.
"""
import random

P = (1 << 61) - 1


def inv(a):
    return pow(a, P - 2, P)


def pc(e):
    return bin(e).count('1')


class Alg:
    def __init__(self, key, p, v, r, ns=None, lits=None, null=False):
        self.key, self.ns, self.null = key, ns, null
        self.p, self.v, self.r = p, v, r
        self.dim = p + v + r
        self.sq = [0] * r + [1] * p + [-1] * v
        self.size = 1 << self.dim
        self.lits = lits or {}
        self.type = f'gal::algebra<gal::metric<{p}, {v}, {r}>>'
        self.compute = f'gal::{ns}::compute' if ns else f'gal::detail::compute<{self.type}>'
        self.sigc = f'ref::Sig::make({p}, {v}, {r})'
        self._cache = {}

    def gp(self, a, b):
        k = (a, b)
        if k in self._cache:
            return self._cache[k]
        l = [i for i in range(self.dim) if a >> i & 1] + [i for i in range(self.dim) if b >> i & 1]
        s = 1
        ch = True
        while ch:
            ch = False
            for i in range(len(l) - 1):
                if l[i] > l[i + 1]:
                    l[i], l[i + 1] = l[i + 1], l[i]
                    s = -s
                    ch = True
        i = 0
        e = 0
        while i < len(l):
            if i + 1 < len(l) and l[i] == l[i + 1]:
                s *= self.sq[l[i]]
                i += 2
            else:
                e |= 1 << l[i]
                i += 1
        r = (e, s) if s else (0, 0)
        self._cache[k] = r
        return r

    def keep(self, k, a, b, e):
        ga, gb, g = pc(a), pc(b), pc(e)
        return {'gp': True, 'ep': g == ga + gb, 'lc': gb >= ga and g == gb - ga,
                'ip': ga > 0 and gb > 0 and g == abs(ga - gb)}[k]

    def mul(self, k, x, y):
        o = {}
        for a, u in x.items():
            for b, w in y.items():
                e, s = self.gp(a, b)
                if s and self.keep(k, a, b, e):
                    o[e] = (o.get(e, 0) + s * u * w) % P
        return {e: c for e, c in o.items() if c}

    def dual(self, x):
        o = {}
        for a, u in x.items():
            c = (self.size - 1) ^ a
            l = [i for i in range(self.dim) if a >> i & 1] + [i for i in range(self.dim) if c >> i & 1]
            s = 1
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    if l[i] > l[j]:
                        s = -s
            o[c] = s * u % P
        return o

    def rev(self, x):
        return {e: (u if pc(e) % 4 in (0, 1) else -u % P) for e, u in x.items()}

    def to_nat(self, x):
        no, ni = 1 << (self.dim - 2), 1 << (self.dim - 1)
        h = inv(2)
        o = {}

        def add(e, c):
            o[e] = (o.get(e, 0) + c) % P
        for e, u in x.items():
            b = e & ~(no | ni)
            if bool(e & no) == bool(e & ni):
                add(e, u)
            elif e & no:
                add(b | no, h * u)
                add(b | ni, h * u)
            else:
                add(b | ni, u)
                add(b | no, -u)
        return {e: c for e, c in o.items() if c}

    def to_null(self, x):
        no, ni = 1 << (self.dim - 2), 1 << (self.dim - 1)
        h = inv(2)
        o = {}

        def add(e, c):
            o[e] = (o.get(e, 0) + c) % P
        for e, u in x.items():
            b = e & ~(no | ni)
            if bool(e & no) == bool(e & ni):
                add(e, u)
            elif e & no:
                add(b | no, u)
                add(b | ni, -h * u)
            else:
                add(b | no, u)
                add(b | ni, h * u)
        return {e: c for e, c in o.items() if c}


def _lits(names):
    return dict(names)


VGA = Alg('vga', 3, 0, 0, 'vga', {'e0': (1, 1), 'e1': (2, 1), 'e2': (4, 1), 'e01': (3, 1), 'e02': (5, 1),
                                  'e12': (6, 1), 'e012': (7, 1), 'ps': (7, 1), 'ips': (7, -1)})
PGA = Alg('pga', 3, 0, 1, 'pga', {('e' + ''.join(str(i) for i in range(4) if e >> i & 1)): (e, 1) for e in range(1, 16)} | {'ps': (15, 1)})
PGA2 = Alg('pga2', 2, 0, 1, 'pga2', {('e' + ''.join(str(i) for i in range(3) if e >> i & 1)): (e, 1) for e in range(1, 8)} | {'ps': (7, 1)})
CGA = Alg('cga', 4, 1, 0, 'cga', {'e1': (1, 1), 'e2': (2, 1), 'e3': (4, 1), 'no': (8, 1), 'ni': (16, 1),
                                  'ps': (31, 1), 'ips': (31, -1)}, null=True)
CUSTOM = [Alg('m%d%d%d' % (p, v, r), p, v, r) for p, v, r in
          [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (2, 0, 0), (0, 2, 0), (3, 1, 0), (1, 3, 0), (0, 3, 0),
           (2, 1, 1), (1, 1, 2), (4, 0, 0), (0, 0, 3), (3, 2, 0), (2, 2, 1), (4, 0, 1), (3, 0, 2), (3, 3, 0), (5, 0, 1), (2, 2, 2)]]
STD = [VGA, PGA, PGA2]

# named entity types: (C++ type with %s for the value type, number of stored values, mapping)
# mapping: list of (element, numerator, denominator, [indices of stored values multiplied])
NAMED = {
    'vga': [('gal::vga::vector<%s>', 3, [(1, 1, 1, [0]), (2, 1, 1, [1]), (4, 1, 1, [2])], 'xyz'),
            ('gal::vga::rotor<%s>', 5, [(0, 1, 1, [0]), (3, -1, 1, [1, 4]), (5, 1, 1, [1, 3]), (6, -1, 1, [1, 2])], 'raw')],
    'pga': [('gal::pga::plane<%s>', 4, [(1, 1, 1, [0]), (2, 1, 1, [1]), (4, 1, 1, [2]), (8, 1, 1, [3])], 'xyz'),
            ('gal::pga::line<%s>', 6, [(12, -1, 1, [0]), (10, 1, 1, [1]), (6, -1, 1, [2]), (3, -1, 1, [3]), (5, -1, 1, [4]), (9, -1, 1, [5])], 'xyz'),
            ('gal::pga::motor<%s>', 8, [(e, 1, 1, [i]) for i, e in enumerate([0, 3, 5, 6, 9, 10, 12, 15])], 'xyz'),
            ('gal::pga::rotor<%s>', 5, [(0, 1, 1, [0]), (6, 1, 1, [1, 4]), (10, -1, 1, [1, 3]), (12, 1, 1, [1, 2])], 'raw'),
            ('gal::pga::translator<%s>', 4, [(0, 1, 1, []), (3, -1, 2, [0, 1]), (5, -1, 2, [0, 2]), (9, -1, 2, [0, 3])], 'xyz'),
            ('gal::pga::vector<%s>', 3, [(7, -1, 1, [2]), (11, 1, 1, [1]), (13, -1, 1, [0])], 'xyz'),
            ('gal::pga::point<%s>', 4, [(7, 1, 1, [0]), (11, 1, 1, [1]), (13, 1, 1, [2]), (14, 1, 1, [3])], 'xyz'),
            ('gal::vga::point<%s>', 3, [(7, -1, 1, [2]), (11, 1, 1, [1]), (13, -1, 1, [0]), (14, 1, 1, [])], 'xyz')],
    'pga2': [('gal::pga2::line<%s>', 3, [(1, 1, 1, [0]), (2, 1, 1, [1]), (4, 1, 1, [2])], 'xyz'),
             ('gal::pga2::point<%s>', 2, [(3, 1, 1, [1]), (5, -1, 1, [0]), (6, 1, 1, [])], 'xyz')],
    'cga': [('gal::cga::point<%s>', 3, [(1, 1, 1, [0]), (2, 1, 1, [1]), (4, 1, 1, [2]), (8, 1, 1, []),
                                        (16, 1, 2, [0, 0]), (16, 1, 2, [1, 1]), (16, 1, 2, [2, 2])], 'xyz')],
}


class Input:
    def __init__(self, ctype, n, mapping, ctor):
        self.ctype, self.n, self.mapping, self.ctor = ctype, n, mapping, ctor
        self.alias = None
        self.layout = 0
        self.ready = None
        self.guest = False

    def define(self, alg, V):
        """C++ definition of a user-defined entity type"""
        inds, mons, terms = [], [], []
        for e, nu, de, ix in self.mapping:
            if not terms or terms[-1][2] != e:
                terms.append([0, len(mons), e])
            terms[-1][0] += 1
            js = sorted(set(ix))
            mons.append(f'gal::mon{{gal::rat{{{nu}, {de}}}, gal::rat{{{len(ix)}}}, {len(js)}, {len(inds)}}}')
            inds += [f'gal::ind{{id + {j}, gal::rat{{{ix.count(j)}}}}}' for j in js]
        m = max(1, self.n)
        at = ['v[i]', 'v[i]', f'v[{m - 1} - i]'][self.layout]
        head = f'gal::mv<algebra_t, {len(inds)}, {len(mons)}, {len(terms)}>'
        body = f'{{gal::mv_size{{{len(inds)}, {len(mons)}, {len(terms)}}}, {{{", ".join(inds)}}}, {{{", ".join(mons)}}}, {{{", ".join("gal::term{%d, %d, %d}" % tuple(t) for t in terms)}}}}}'
        if self.ready:
            head, body = 'auto', self.ready
        host, home, own = '', alg.type, ''
        if self.guest:
            # a type that belongs to another algebra and declares a second form for this one
            home = 'gal::algebra<gal::metric<1, 2, 0>>' if alg.type != 'gal::algebra<gal::metric<1, 2, 0>>' else 'gal::algebra<gal::metric<2, 0, 0>>'
            own = ('        [[nodiscard]] constexpr static gal::mv<algebra_t, 0, 1, 1> ie(uint32_t) noexcept {\n'
                   '            return {gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::rat{77}, gal::zero, 0, 0}}, {gal::term{1, 0, 1}}}; }\n')
            host = alg.type + ', '
            head, body = head.replace('algebra_t', alg.type), body.replace('algebra_t::', alg.type + '::').replace('<algebra_t>', f'<{alg.type}>')
        return (f'struct {self.ctype} {{ using algebra_t = {home}; using value_t = {V}; {"char tag = 7; " + V + " pad = -99; " if self.layout == 1 else ""}{V} v[{m}];\n'
                f'        [[nodiscard]] constexpr static {head} ie({host}[[maybe_unused]] uint32_t id) noexcept {{\n'
                f'            return {body}; }}\n{own}'
                f'        [[nodiscard]] constexpr static size_t size() noexcept {{ return {self.n}; }}\n'
                f'        [[nodiscard]] constexpr {V} const& operator[](size_t i) const noexcept {{ return {at}; }}\n'
                f'        [[nodiscard]] constexpr {V}& operator[](size_t i) noexcept {{ return {at}; }} }};')


class Node:
    __slots__ = ('i', 'code', 'ref', 'val', 'args', 'den', 'num', 'poly', 'leaf', 'key', 'op', 'mons', 'atomic', 'deg', 'sup', 'call')


UF = {'sin': 0, 'cos': 1, 'tan': 2, 'sqrt': 3}


def uf(f, x):
    if x == 0:
        return 1 if f == 'cos' else 0
    return hash((f, x, 'uf')) % P if False else (pow(x, 3, P) * (UF[f] * 7919 + 104729) + pow(x, 5, P) + UF[f] + 17) % P


class Prog:
    """one expression under construction"""

    def __init__(self, alg, rng, vtype='double'):
        self.alg, self.rng, self.vtype = alg, rng, vtype
        self.inputs, self.nodes = [], []

    def _new(self, op, code, ref, val, args, den, num, poly, leaf=False, key=None, atomic=False, deg=0):
        n = Node()
        n.i, n.op, n.code, n.ref, n.val, n.args = len(self.nodes), op, code, ref, val, args
        n.call = None
        n.den, n.num, n.poly, n.leaf, n.atomic, n.deg = den, num, poly, leaf, atomic, deg
        n.key = key or (op, code if not args else '', tuple(a.key for a in args))
        n.sup = self._sup(n)
        self.nodes.append(n)
        return n

    def _sup(self, n):
        """elements that may occur when no cancellation is taken into account"""
        A, op = self.alg, n.op
        if n.leaf:
            return frozenset(n.val)
        s = [a.sup for a in n.args]

        def prod(k, x, y):
            o = set()
            for a in x:
                for b in y:
                    e, g = A.gp(a, b)
                    if g and A.keep(k, a, b, e):
                        o.add(e)
            return frozenset(o)
        if op in ('*', '^', '>>', '|'):
            return prod({'*': 'gp', '^': 'ep', '>>': 'lc', '|': 'ip'}[op], s[0], s[1])
        top = A.size - 1
        if op == '&':
            return frozenset(top ^ e for e in prod('ep', {top ^ e for e in s[0]}, {top ^ e for e in s[1]}))
        if op == '%':
            return prod('gp', prod('gp', s[1], s[0]), s[1])
        if op == 'sp' or op in UF or op.startswith('comp') or op.startswith('i/') or op.startswith('k/'):
            return frozenset([0])
        if op in ('+', '-'):
            return s[0] | s[1]
        if op == '!':
            return frozenset(top ^ e for e in s[0])
        if op.startswith('grade'):
            return frozenset(e for e in s[0] if pc(e) == int(op[5:]))
        if op[:2] in ('i+', '+i', 'i-', '-i'):
            return s[0] | {0}
        return s[0]

    # ---- inputs
    def add_input(self, inp):
        A = self.alg
        i = len(self.inputs)
        self.inputs.append(inp)
        data = [self.rng.randrange(1, P) for _ in range(inp.n)]
        val = {}
        den = 1
        for e, nu, de, idx in inp.mapping:
            c = nu * inv(de) % P
            for k in idx:
                c = c * data[k] % P
            val[e] = (val.get(e, 0) + c) % P
            den = max(den, de)
        if A.null:
            val = A.to_nat(val)
            den *= 2
        mons = len(inp.mapping) * (2 if A.null else 1)
        n = self._new('in', f'x{i}', f'x{i}', val, [], den, 1, True, leaf=True, key=('in', i), atomic=True,
                      deg=max([len(m[3]) for m in inp.mapping] or [0]))
        n.mons = mons
        return n

    def alias_input(self, j):
        """pass the object of input j a second time"""
        o = self.inputs[j]
        while o.alias is not None:
            j = o.alias
            o = self.inputs[j]
        src = next(n for n in self.nodes if n.key == ('in', j))
        a = Input(o.ctype, o.n, o.mapping, o.ctor)
        a.alias = j
        i = len(self.inputs)
        self.inputs.append(a)
        n = self._new('in', f'x{i}', f'x{i}', dict(src.val), [], src.den, 1, True, leaf=True, key=('in', i), atomic=True, deg=src.deg)
        n.mons = src.mons
        return n

    def float_input(self):
        return self.add_input(Input(self.vtype, 1, [(0, 1, 1, [0])], 'float'))

    def scalar_input(self):
        return self.add_input(Input(f'gal::scalar<{self.alg.type}, {self.vtype}>', 1, [(0, 1, 1, [0])], 'xyz'))

    def entity_input(self, elems):
        es = ', '.join(str(e) for e in elems)
        return self.add_input(Input(f'gal::entity<{self.alg.type}, {self.vtype}{", " if elems else ""}{es}>', len(elems),
                                    [(e, 1, 1, [i]) for i, e in enumerate(elems)], 'agg'))

    def named_input(self, k=None):
        t, n, m, ct = self.rng.choice(NAMED[self.alg.ns]) if k is None else NAMED[self.alg.ns][k]
        return self.add_input(Input(t % self.vtype, n, m, ct))

    def custom_input(self, max_n=4, max_terms=4, max_mons=3, max_deg=3):
        """a user-defined entity type: any multivector whose coefficients are polynomials of its own data"""
        rng, A = self.rng, self.alg
        if rng.random() < .22:
            return self.ready_input()
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5][:max_n + 4])
        elems = sorted(rng.sample(range(A.size), rng.randint(1, min(max_terms, A.size))))
        mapping = []
        for e in elems:
            mons = {}
            for _ in range(rng.randint(1, max_mons if n else 1)):
                deg = rng.choice([0, 1, 1, 1, 2, 2, max_deg]) if n else 0
                ix = tuple(sorted(rng.randrange(n) for _ in range(deg)))
                mons[ix] = (rng.choice([1, 1, 1, -1, 2, -3, 5]), rng.choice([1, 1, 1, 2, 2, 3, 4]))

            def order(ix):
                return (len(ix), [(j, ix.count(j)) for j in sorted(set(ix))])
            for ix in sorted(mons, key=order):
                nu, de = mons[ix]
                if nu % de == 0 and de > 1:
                    nu, de = nu // de, 1
                mapping.append((e, nu, de, list(ix)))
        inp = Input(f'u{len(self.inputs)}', n, mapping, 'custom')
        inp.layout = rng.randrange(3)
        inp.guest = rng.random() < .25
        return self.add_input(inp)

    def ready_input(self):
        """a user-defined type whose multivector comes from a helper of the algebra"""
        rng, A = self.rng, self.alg
        kind = rng.choice(['even', 'bivector', 'list', 'list', 'ps', 'inv'])
        if A.null and kind != 'list' or A.dim > 4 and kind == 'even' or kind == 'inv' and A.r or A.dim < 2:
            kind = 'list'
        if kind == 'list':
            elems = sorted(rng.sample(range(A.size), rng.randint(1, min(4, A.size))))
            code = f'gal::detail::construct_ie<algebra_t>(id, std::make_integer_sequence<gal::width_t, {len(elems)}>{{}}, std::integer_sequence<gal::elem_t, {", ".join(map(str, elems))}>{{}})'
        elif kind in ('even', 'bivector'):
            elems = [e for e in range(A.size) if (bin(e).count('1') % 2 == 0 if kind == 'even' else bin(e).count('1') == 2)]
            code = f'algebra_t::{kind}_mv(id)'
        if kind in ('ps', 'inv'):
            sq = A.gp(A.size - 1, A.size - 1)[1] if kind == 'inv' else 1
            n, mapping, code = 0, [(A.size - 1, sq, 1, [])], 'algebra_t::pseudoscalar' + ('_inv' if kind == 'inv' else '')
        else:
            n, mapping = len(elems), [(e, 1, 1, [i]) for i, e in enumerate(elems)]
        inp = Input(f'u{len(self.inputs)}', n, mapping, 'custom')
        inp.layout = rng.randrange(3)
        inp.guest = rng.random() < .25
        inp.ready = code
        return self.add_input(inp)

    def random_input(self, big=4):
        r = self.rng.random()
        if self.alg.ns and r < 0.5:
            return self.named_input()
        if r < 0.62:
            return self.float_input()
        if r < 0.7:
            return self.scalar_input()
        k = self.rng.randint(1, min(big, self.alg.size))
        return self.entity_input(sorted(self.rng.sample(range(self.alg.size), k)))

    # ---- operations
    def binary(self, op, a, b):
        n = self._binary(op, a, b)
        n.call = (2, op, None)
        return n

    def unary(self, op, a, k=None):
        n = self._unary(op, a, k)
        n.call = (1, op, k)
        return n

    def _binary(self, op, a, b):
        A = self.alg
        if op in ('*', '^', '>>', '|'):
            k = {'*': 'gp', '^': 'ep', '>>': 'lc', '|': 'ip'}[op]
            val = A.mul(k, a.val, b.val)
            ref = f'ref::{k}({a.ref}, {b.ref})'
            code = f'{a.code} {op} {b.code}'
            den, num, deg = a.den * b.den, a.num * b.num * max(1, min(len(a.val), len(b.val))), a.deg + b.deg
        elif op == '&':
            val = A.dual(A.mul('ep', A.dual(a.val), A.dual(b.val)))
            ref, code = f'ref::reg({a.ref}, {b.ref})', f'{a.code} & {b.code}'
            den, num, deg = a.den * b.den, a.num * b.num * max(1, min(len(a.val), len(b.val))), a.deg + b.deg
        elif op == '%':
            val = A.mul('gp', A.mul('gp', b.val, a.val), A.rev(b.val))
            ref, code = f'ref::sandwich({a.ref}, {b.ref})', f'{a.code} % {b.code}'
            den, num, deg = a.den * b.den * b.den, a.num * b.num * b.num * max(1, len(b.val)) ** 2, a.deg + 2 * b.deg
        elif op == 'sp':
            v = A.mul('gp', a.val, b.val).get(0, 0)
            val = {0: v} if v else {}
            ref, code = f'ref::sp({a.ref}, {b.ref})', f'scalar_product({a.code}, {b.code})'
            den, num, deg = a.den * b.den, a.num * b.num * max(1, min(len(a.val), len(b.val))), a.deg + b.deg
        elif op in '+-':
            s = 1 if op == '+' else -1
            val = dict(a.val)
            for e, c in b.val.items():
                val[e] = (val.get(e, 0) + s * c) % P
            val = {e: c for e, c in val.items() if c}
            ref = f'ref::{"add" if op == "+" else "sub"}({a.ref}, {b.ref})'
            code = f'{a.code} {op} {b.code}'
            import math
            den = a.den * b.den // math.gcd(a.den, b.den)
            num, deg = a.num * (den // a.den) + b.num * (den // b.den), max(a.deg, b.deg)
        elif op == '/':
            d = inv(b.val[0])
            val = {e: c * d % P for e, c in a.val.items()}
            ref, code = f'r_div({a.ref}, {b.ref})', f'{a.code} / {b.code}'
            return self._new('/', '(' + code + ')', ref, val, [a, b], a.den * b.num if b.num < 1000 else 10 ** 6, a.num * b.den, False, deg=a.deg + b.deg)
        else:
            raise ValueError(op)
        return self._new(op, '(' + code + ')', ref, val, [a, b], den, num, a.poly and b.poly, deg=deg)

    def _unary(self, op, a, k=None):
        A = self.alg
        if op == '~':
            return self._new(op, f'(~{a.code})', f'ref::rev({a.ref})', A.rev(a.val), [a], a.den, a.num, a.poly, deg=a.deg, atomic=a.atomic)
        if op == '!':
            return self._new(op, f'(!{a.code})', f'ref::dual({a.ref})', A.dual(a.val), [a], a.den, a.num, a.poly, deg=a.deg, atomic=a.atomic)
        if op == 'neg':
            return self._new(op, f'(-{a.code})', f'ref::neg({a.ref})', {e: -c % P for e, c in a.val.items()}, [a], a.den, a.num, a.poly, deg=a.deg)
        if op == 'scale':
            return self._new(op + str(k), f'({k} * {a.code})', f'r_scl({k}, {a.ref})', {e: c * k % P for e, c in a.val.items() if k}, [a], a.den, a.num * max(1, abs(k)), a.poly, deg=a.deg)
        if op == 'divi':
            return self._new(op + str(k), f'({a.code} / {k})', f'r_divi({a.ref}, {k})', {e: c * inv(k % P) % P for e, c in a.val.items()}, [a], a.den * abs(k), a.num, a.poly, deg=a.deg)
        if op == 'comp':
            src = A.to_null(a.val) if A.null else a.val
            val = {0: src[k]} if k in src else {}
            ref = f'r_comp_null({a.ref}, {k})' if A.null else f'ref::comp({a.ref}, {k})'
            return self._new(op + str(k), f'{a.code}[{k}]', ref, val, [a], a.den * (2 if A.null else 1), a.num * (2 if A.null else 1), a.poly, deg=a.deg, atomic=a.atomic)
        if op == 'grade':
            return self._new(op + str(k), f'{a.code}.select_grade({k})', f'ref::grade({a.ref}, {k})', {e: c for e, c in a.val.items() if pc(e) == k}, [a], a.den, a.num, a.poly, deg=a.deg, atomic=a.atomic)
        if op in UF:
            v = uf(op, a.val.get(0, 0))
            return self._new(op, f'{op}({a.code})', f'r_{op}({a.ref})', {0: v} if v else {}, [a], 1, 1, False, deg=1, atomic=True)
        if op in ('i+', '+i', 'i-', '-i'):
            s = -1 if op == 'i-' else 1
            val = {e: s * c % P for e, c in a.val.items()}
            kk = -k if op == '-i' else k
            val[0] = (val.get(0, 0) + kk) % P
            val = {e: c for e, c in val.items() if c}
            code = {'i+': f'({k} + {a.code})', '+i': f'({a.code} + {k})', 'i-': f'({k} - {a.code})', '-i': f'({a.code} - {k})'}[op]
            ref = {'i+': f'ref::add(r_int(T, {k}), {a.ref})', '+i': f'ref::add({a.ref}, r_int(T, {k}))',
                   'i-': f'ref::sub(r_int(T, {k}), {a.ref})', '-i': f'ref::sub({a.ref}, r_int(T, {k}))'}[op]
            return self._new(op + str(k), code, ref, val, [a], a.den, a.num + abs(k) * a.den, a.poly, deg=a.deg)
        if op == 'i/':
            d = inv(a.val[0])
            val = {0: k * d % P} if k else {}
            return self._new(op + str(k), f'({k} / {a.code})', f'r_div(r_int(T, {k}), {a.ref})', val, [a], a.num if a.num < 1000 else 10 ** 6, a.den * max(1, abs(k)), False, deg=a.deg)
        if op == 'pi*':
            return self._new(op, f'(gal::PI * {a.code})', f'r_scl(PI_L, {a.ref})', {e: c * 314159 % P for e, c in a.val.items()}, [a], a.den, a.num, False, deg=a.deg + 1)
        if op == '*e':
            return self._new(op, f'({a.code} * gal::E)', f'r_scl(E_L, {a.ref})', {e: c * 271828 % P for e, c in a.val.items()}, [a], a.den, a.num, False, deg=a.deg + 1)
        if op == '/pi':
            return self._new(op, f'({a.code} / gal::PI)', f'r_divi({a.ref}, PI_L)', {e: c * inv(314159) % P for e, c in a.val.items()}, [a], a.den, a.num, False, deg=a.deg + 1)
        if op == '/(ke)':
            return self._new(op + str(k), f'({a.code} / ({k} * gal::E))', f'r_divi({a.ref}, {k} * E_L)', {e: c * inv(271828 * k % P) % P for e, c in a.val.items()}, [a], a.den * abs(k), a.num, False, deg=a.deg + 1)
        if op == '*pik':
            return self._new(op + str(k), f'({a.code} * (gal::PI * {k}))', f'r_scl({k} * PI_L, {a.ref})', {e: c * 314159 * k % P for e, c in a.val.items()}, [a], a.den, a.num * abs(k), False, deg=a.deg + 1)
        C = {'p': ('gal::PI', 'PI_L', 314159), 'e': ('gal::E', 'E_L', 271828)}
        if op[:2] == 'k/' or op[:2] == '/k' or op[:2] == 'k*' or op[:2] == '*k':
            # op = form, constant, inner form: the constant may itself be multiplied or divided by an integer
            cn, cr, cv = C[op[2]]
            w = op[3:]
            ce, cx, cf, g = cn, cr, cv, 1
            for j in range(0, len(w), 2):
                kk = k if j == 0 else (3, -1, 2, 5, -2)[(k + j) % 5]
                g *= abs(kk)
                if w[j:j + 2] == 'n*':
                    ce, cx, cf = f'({kk} * {ce})', f'({kk} * {cx})', cf * kk
                elif w[j:j + 2] == '*n':
                    ce, cx, cf = f'({ce} * {kk})', f'({kk} * {cx})', cf * kk
                else:
                    ce, cx, cf = f'({ce} / {kk})', f'({cx} / {kk})', cf * inv(kk % P)
            if op[:2] == 'k*':
                return self._new(op + str(k), f'({ce} * {a.code})', f'r_scl({cx}, {a.ref})', {e: c * cf % P for e, c in a.val.items()}, [a], a.den * g, a.num * g, False, deg=a.deg + 1)
            if op[:2] == '*k':
                return self._new(op + str(k), f'({a.code} * {ce})', f'r_scl({cx}, {a.ref})', {e: c * cf % P for e, c in a.val.items()}, [a], a.den * g, a.num * g, False, deg=a.deg + 1)
            if op[:2] == '/k':
                return self._new(op + str(k), f'({a.code} / {ce})', f'r_divi({a.ref}, {cx})', {e: c * inv(cf % P) % P for e, c in a.val.items()}, [a], a.den * g, a.num * g, False, deg=a.deg + 1)
            return self._new(op + str(k), f'({ce} / {a.code})', f'r_div(r_int(T, {cx}), {a.ref})', {0: cf * inv(a.val[0]) % P}, [a],
                             (a.num if a.num < 1000 else 10 ** 6) * g, a.den * g, False, deg=a.deg + 1)
        raise ValueError(op)

    def literal(self, nm=None, k=None):
        nm = nm or self.rng.choice(sorted(self.alg.lits))
        e, s = self.alg.lits[nm]
        if k is None:
            k = self.rng.choice([1, 1, 1, 2, 3, 0]) if self.rng.random() < .9 else self.rng.randint(4, 40)
        val = {e: s * k % P} if k else {}
        den = 1
        ref = f'r_blade(T, {e}, {s * k})'
        if self.alg.null:
            val = self.alg.to_nat(val)
            ref = f'to_nat({ref})'
            den = 2
        n = self._new('lit', f'({k}_{nm})', ref, val, [], den, max(1, k), True, leaf=True, key=('lit', k, nm), atomic=True)
        n.mons = max(1, len(val))
        return n

    # ---- cost and cse analysis for the given roots
    def analyse(self, roots):
        live = {}

        def visit(n):
            live[n.i] = n
            for a in n.args:
                if a.i not in live:
                    visit(a)
        for r in roots:
            visit(r)
        # count occurrences of structurally equal subexpressions
        cnt = {}

        def occ(n, mult):
            if n.leaf:
                return
            cnt[n.key] = cnt.get(n.key, 0) + mult
            for j, a in enumerate(n.args):
                occ(a, mult * (2 if n.op == '%' and j == 1 else 1))
        total = 0
        for r in roots:
            occ(r, 1)
        work = 0
        for i in sorted(live):
            n = live[i]
            if n.leaf:
                continue
            am = [a.mons if (a.leaf or cnt.get(a.key, 0) < 2) else max(1, len(a.val)) for a in n.args]
            if n.op in ('*', '^', '>>', '|', '&', 'sp'):
                n.mons = am[0] * am[1]
            elif n.op == '%':
                n.mons = am[0] * am[1] * am[1]
            elif n.op in '+-':
                n.mons = am[0] + am[1]
            elif n.op == '/':
                n.mons = am[0]
            elif n.op in UF:
                n.mons = 1
            elif n.op[:2] in ('i+', '+i', 'i-', '-i'):
                n.mons = am[0] + 1
            else:
                n.mons = am[0]
            work += n.mons
        dup = 2 if any(c > 1 for k, c in cnt.items()) else 1 if self.alike(roots) else 0
        return live, work, max([n.mons for n in live.values()]), dup, cnt

    def alike(self, roots):
        """whether two subexpressions are equal up to the order and grouping of sums and constant factors"""
        memo, cnt = {}, {}

        def canon(n):
            if n.i not in memo:
                if n.leaf:
                    k = ('in', self.root_input(n.key[1])) if n.key[0] == 'in' else n.key
                elif n.op in '+-' or n.op[:2] in ('i+', '+i', 'i-', '-i'):
                    parts = []
                    for a in n.args:
                        c = canon(a)
                        parts += c[1] if c[0] == 'sum' else [c]
                    if len(n.args) == 1:
                        parts.append(('one',))
                    k = ('sum', tuple(sorted(parts, key=repr)))
                elif n.call and n.call[1] in ('scale', 'divi', 'neg'):
                    k = canon(n.args[0])
                else:
                    k = (n.key[0], n.key[1], tuple(canon(a) for a in n.args))
                memo[n.i] = k
            return memo[n.i]

        def occ(n, mult):
            if n.leaf:
                return
            k = canon(n)
            if not (n.call and n.call[1] in ('scale', 'divi', 'neg')) and k[0] != 'in':
                cnt[k] = cnt.get(k, 0) + mult
            if n.op == '&':
                for a in n.args:
                    d = ('!', '', (canon(a),))
                    cnt[d] = cnt.get(d, 0) + mult
            for j, a in enumerate(n.args):
                occ(a, mult * (2 if n.op == '%' and j == 1 else 1))
        for r in roots:
            occ(r, 1)
        return any(c > 1 for c in cnt.values())

    def root_input(self, i):
        while self.inputs[i].alias is not None:
            i = self.inputs[i].alias
        return i

    def tree_size(self, n, memo=None):
        memo = {} if memo is None else memo
        if n.i in memo:
            return memo[n.i]
        s = 1 + sum(self.tree_size(a, memo) for a in n.args) + (self.tree_size(n.args[1], memo) if n.op == '%' else 0)
        memo[n.i] = s
        return s

    # ---- emission
    def emit(self, roots, let=True):
        """returns (lambda source, reference statements, list of root reference expressions)"""
        live, *_ = self.analyse(roots)
        params = ', '.join(f'[[maybe_unused]] auto x{i}' for i in range(len(self.inputs)))
        body, ref = [], []
        if let:
            ren = {}
            for i in sorted(live):
                n = live[i]
                if n.leaf:
                    ren[i] = (n.code, n.ref)
                    continue
                c, r = self.recode(n, [ren[a.i] for a in n.args])
                body.append(f'auto t{i} = {c};')
                ref.append(f'auto t{i} = {r};')
                ren[i] = (f't{i}', f't{i}')
            outs = [ren[r.i] for r in roots]
        else:
            outs = [(r.code, r.ref) for r in roots]
        ret = outs[0][0] if len(outs) == 1 else 'gal::make_tuple(' + ', '.join(o[0] for o in outs) + ')'
        return f'[]({params}) {{ {" ".join(body)} return {ret}; }}', ' '.join(ref), [o[1] for o in outs]

    def recode(self, n, subs):
        """code and reference of a node whose operands have been bound to variables"""
        q = Prog.__new__(Prog)
        q.alg, q.rng, q.vtype, q.inputs, q.nodes = self.alg, self.rng, self.vtype, [], []
        code, ref = n.code, n.ref
        # rebuild by textual substitution of operand code/ref: operands are emitted verbatim
        args = n.args
        if len(args) == 1:
            return self._subst(code, [args[0].code], [subs[0][0]]), self._subst(ref, [args[0].ref], [subs[0][1]])
        return (self._subst(code, [args[0].code, args[1].code], [subs[0][0], subs[1][0]]),
                self._subst(ref, [args[0].ref, args[1].ref], [subs[0][1], subs[1][1]]))

    @staticmethod
    def _subst(text, olds, news):
        # operands occur in order, each exactly once
        out, pos = '', 0
        for o, nw in zip(olds, news):
            j = text.index(o, pos)
            out += text[pos:j] + nw
            pos = j + len(o)
        return out + text[pos:]
