"""Programs of several translation units that include the headers in every order (C22)."""
import os
import re
import subprocess

HEADERS = ['algebra', 'algorithm', 'cga', 'crc', 'dfa', 'engine', 'entity', 'expr', 'format', 'geometric_algebra', 'null_algebra', 'numeric', 'opt', 'pga', 'pga2', 'stack', 'tuple', 'vga']

PRE = '''
namespace {
template <class E> int put(E const& e, double* o)
{
    int n = 0;
    o[n++] = (double)e.size();
    if constexpr (E::size() > 0)
        for (decltype(e.size()) i = 0; i < e.size(); ++i) { o[n++] = (double)e.elements[i]; o[n++] = (double)e[i]; }
    return n;
}
}
'''

# name: (headers, number of inputs, body). The body reads d[], writes o[] and returns the number written
MODULES = {
    'vector': (['vga'], 7, '''
    gal::vga::vector<double> v{d[0], d[1], d[2]};
    gal::vga::rotor<double> r{d[3], d[4], d[5], d[6]};
    int n = put(gal::vga::compute([](auto v, auto r) { return v % r; }, v, r), o);
    n += put(gal::vga::compute([](auto v) { using namespace gal::vga; return (v ^ 2_e0) + 3 * v; }, v), o + n);
    return n;'''),
    'scalars': (['vga'], 2, '''
    double x = d[0], y = d[1];
    int n = put(gal::vga::compute([](auto x, auto y) { return sqrt(x * x + y * y) + sin(x) / (2 + y * y) - gal::PI * cos(y); }, x, y), o);
    auto t = gal::vga::compute([](auto x, auto y) { return gal::make_tuple(x - x, y, x * y + x * y); }, x, y);
    n += put(std::get<0>(t), o + n); n += put(std::get<1>(t), o + n); n += put(std::get<2>(t), o + n);
    return n;'''),
    'planes': (['pga'], 12, '''
    gal::pga::plane<double> a{d[0], d[1], d[2], d[3]}, b{d[4], d[5], d[6], d[7]}, c{d[8], d[9], d[10], d[11]};
    int n = put(gal::pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c), o);
    n += put(gal::pga::compute([](auto a, auto b) { using namespace gal::pga; return (a * b) | (1_e12 + 2_e01); }, a, b), o + n);
    return n;'''),
    'motor': (['pga'], 6, '''
    gal::pga::line<double> l{d[0] / 8, d[1] / 8, d[2] / 8 + 0.4, d[3], d[4], d[5]};
    gal::pga::motor<double> m = gal::pga::compute([](auto l) { return gal::exp(l); }, l);
    gal::pga::line<double> k = m.log();
    for (int i = 0; i < 8; ++i) o[i] = m[i];
    for (int i = 0; i < 6; ++i) o[8 + i] = k[i];
    return 14;'''),
    'move': (['pga', 'vga'], 7, '''
    gal::vga::point<double> p{d[0], d[1], d[2]};
    gal::pga::translator<double> t{d[3], d[4], d[5], d[6]};
    gal::vga::point<double> q = gal::pga::compute([](auto p, auto t) { return p % t; }, p, t);
    o[0] = q.x; o[1] = q.y; o[2] = q.z;
    return 3;'''),
    'planar': (['pga2'], 6, '''
    gal::pga2::line<double> a{d[0], d[1], d[2]}, b{d[3], d[4], d[5]};
    int n = put(gal::pga2::compute([](auto a, auto b) { return a ^ b; }, a, b), o);
    n += put(gal::pga2::compute([](auto a, auto b) { using namespace gal::pga2; return !(a * b) + 1_e12; }, a, b), o + n);
    return n;'''),
    'conformal': (['cga'], 6, '''
    gal::cga::point<double> p{d[0], d[1], d[2]}, q{d[3], d[4], d[5]};
    int n = put(gal::cga::compute([](auto p, auto q) { return p | q; }, p, q), o);
    n += put(gal::cga::compute([](auto p, auto q) { using namespace gal::cga; return (p ^ q) + (p >> 1_ni) * 2_no; }, p, q), o + n);
    return n;'''),
    'signature': (['engine', 'geometric_algebra', 'entity'], 6, '''
    using A = gal::algebra<gal::metric<2, 1, 1>>;
    gal::entity<A, double, 0, 3, 6> a{{d[0], d[1], d[2]}};
    gal::entity<A, double, 1, 9, 15> b{{d[3], d[4], d[5]}};
    int n = put(gal::detail::compute<A>([](auto a, auto b) { return a * b + ~b; }, a, b), o);
    n += put(gal::detail::compute<A>([](auto a, auto b) { return (a & b) - !a; }, a, b), o + n);
    return n;'''),
    'wide': (['engine', 'geometric_algebra', 'entity'], 5, '''
    using A = gal::algebra<gal::metric<4, 1, 1>>;
    gal::entity<A, double, 8, 16, 32> a{{d[0], d[1], d[2]}};
    gal::entity<A, double, 2, 24> b{{d[3], d[4]}};
    int n = put(gal::detail::compute<A>([](auto a, auto b) { return a * b + (b | a) * a; }, a, b), o);
    return n;'''),
    'text': (['format', 'vga'], 3, '''
    gal::entity<gal::vga::vga_algebra, double, 0, 1, 6> e{{(double)(int)d[0], (double)(int)d[1], (double)(int)d[2]}};
    auto s = gal::to_string(e);
    int n = 0;
    for (char c : s) o[n++] = c;
    return n;'''),
    'fractions': (['numeric'], 4, '''
    int a = (int)d[0], b = 1 + (int)(d[1] * d[1]), c = (int)d[2], e = 1 + (int)(d[3] * d[3]);
    gal::rat x = gal::rat{a, b} + gal::rat{c, e}, y = gal::rat{a, b} * gal::rat{c, e};
    o[0] = (double)x.num / x.den; o[1] = (double)y.num / y.den; o[2] = gal::pow(d[0], std::integral_constant<int, 7>{}, std::integral_constant<int, 1>{});
    return 3;'''),
    'sorting': (['algorithm'], 12, '''
    for (int i = 0; i < 12; ++i) o[i] = d[i];
    gal::detail::sort(o, o + 12);
    return 12;'''),
    'sequence': (['tuple'], 3, '''
    auto t = gal::tuple<>{}.push(d[0]).append(d[1]).push(d[2]);
    o[0] = t.template get<0>(); o[1] = t.template get<1>(); o[2] = t.template get<2>();
    return 3;'''),
}


def unit(rng, k, names, headers, inline=()):
    """one translation unit: headers in the given order before anything else, then the modules"""
    s = ''.join(f'#include <gal/{h}.hpp>\n' for h in headers) + PRE
    for m in names:
        fn = f'shared_{m}' if m in inline else f'u{k}_{m}'
        s += f'{"inline " if m in inline else ""}int {fn}([[maybe_unused]] double const* d, double* o)\n{{{MODULES[m][2]}\n}}\n'
        if m in inline:
            s += f'int u{k}_{m}(double const* d, double* o) {{ return {fn}(d, o); }}\n'
    return s


def main_unit(units, seed, trials):
    fns = [(k, m) for k, names in units for m in names]
    s = '#include <cstdio>\n#include <cstdint>\n#include <cstring>\n'
    s += ''.join(f'int u{k}_{m}(double const*, double*);\n' for k, m in fns)
    s += '''static uint64_t st;
static uint64_t nx() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static void run(char const* m, int unit, int n, int (*f)(double const*, double*), int trials)
{
    for (int t = 0; t < trials; ++t)
    {
        double d[16], o[600];
        st = %dull * 1000003 + t * 7919 + 12345; for (char const* c = m; *c; ++c) st = st * 31 + *c; for (int i = 0; i < 5; ++i) nx();
        for (int i = 0; i < n; ++i) d[i] = t %% 2 ? (double)((int)(nx() %% 17) - 8) + 0.5 : (double)((int)(nx() %% 4001) - 2000) / 257.0;
        int k = f(d, o);
        std::printf("R %%s %%d %%d", m, unit, t);
        for (int i = 0; i < k; ++i) std::printf(" %%.14g", o[i]);
        std::puts("");
    }
}
int main()
{
''' % seed
    s += ''.join(f'    run("{m}", {k}, {MODULES[m][1]}, u{k}_{m}, {trials});\n' for k, m in fns)
    return s + '    return 0;\n}\n'


def program(rng, mods=None):
    """list of (names, headers, inline)"""
    out = []
    share = rng.choice(sorted(MODULES)) if rng.random() < .6 else None
    for k in range(rng.randint(2, 4)):
        names = rng.sample(sorted(MODULES), rng.randint(1, 4))
        if share and share not in names:
            names.append(share)
        need = [h for m in names for h in MODULES[m][0]]
        need = list(dict.fromkeys(need)) + rng.sample(HEADERS, rng.choice([0, 1, 3, 6, len(HEADERS)]))
        rng.shuffle(need)                     # a header may come twice
        out.append((names, need, (share,) if share else ()))
    return out


def close(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y or (x != x and y != y):
            continue
        if not abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
            return False
    return True
