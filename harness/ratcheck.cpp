// Monitor of the rational coefficients: every executed operator call is compared with exact 128-bit
// integer arithmetic. Operands are chosen so that no exact intermediate product leaves 32 bits.
#include "ref.hpp"
#include "report.hpp"
#include <gal/numeric.hpp>
#include <cmath>
#include <cstdlib>
#include <numeric>

using gal::rat;
using I = __int128;
static Report R;

struct Q { I n, d; };
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static Q norm(Q q) { if (q.d < 0) { q.n = -q.n; q.d = -q.d; } I g = gcd(q.n, q.d); if (g > 1) { q.n /= g; q.d /= g; } return q; }
static bool fits(I x) { return x >= -2147483647ll && x <= 2147483647ll; }
static std::string s(rat r) { return std::to_string(r.num) + "/" + std::to_string(r.den); }
static std::string s(Q r) { return std::to_string((long long)r.n) + "/" + std::to_string((long long)r.d); }

static void expect(char const* op, rat a, rat b, rat got, I n, I d, bool lowest)
{
    Q raw{n, d};
    if (raw.d < 0) { raw.n = -raw.n; raw.d = -raw.d; }
    Q w = norm(raw);
    R.count(std::string("op ") + op);
    std::string why;
    if (got.den <= 0) why = "denominator is not positive";
    else if (raw.d < 1024)
    {
        if ((I)got.num * w.d != w.n * got.den) why = "value differs from exact " + s(w);
        else if (lowest && (got.num != (int)w.n || got.den != (int)w.d)) why = "result is not in lowest terms";
    }
    else
    {
        R.count("above_1024");
        long double e = fabsl((long double)got.num / got.den - (long double)w.n / (long double)w.d);
        if (!(e <= 1.0000001e-7L)) why = "moved by more than 1e-7 from " + s(w);
        if (e != 0) R.count("rounded");
    }
    if (!why.empty()) R.viol(s(a) + " " + op + " " + s(b) + " gives " + s(got) + ": " + why);
}

static void pair(rat a, rat b)
{
    I an = a.num, ad = a.den, bn = b.num, bd = b.den;
    I x = an * bd, y = bn * ad, d = ad * bd, nn = an * bn;
    if (!fits(x) || !fits(y) || !fits(d) || !fits(x + y) || !fits(x - y)) { R.count("out_of_range"); return; }
    uint64_t h = hash_mix(hash_mix(hash_mix(hash_mix(9, (uint32_t)a.num), (uint32_t)a.den), (uint32_t)b.num), (uint32_t)b.den);
    R.eval(h);
    expect("+", a, b, a + b, x + y, d, true);
    expect("-", a, b, a - b, x - y, d, true);
    if (d < 1024) { rat t = a; t += b; expect("+=", a, b, t, x + y, d, true); }
    if (fits(nn))
    {
        expect("*", a, b, a * b, nn, d, true);
        if (d < 1024) { rat t = a; t *= b; expect("*=", a, b, t, nn, d, true); }
    }
    if (bn != 0)
    {
        expect("/", a, b, a / b, x, y == 0 && an == 0 ? (I)1 : bn * ad, true);
        I ay = y < 0 ? -y : y;
        if (ay < 1024 && ay != 0) { rat t = a; t /= b; expect("/=", a, b, t, x, y, true); }
        expect("reciprocal", b, b, b.reciprocal(), bd, bn, false);
    }
    expect("negation", a, a, a.negation(), -an, ad, false);
    expect("unary-", a, a, -a, -an, ad, false);
    auto flag = [&](char const* op, bool got, bool want) {
        R.count(std::string("op ") + op);
        if (got != want) R.viol(s(a) + " " + op + " " + s(b) + " gives " + (got ? "true" : "false"));
    };
    flag("==", a == b, x == y);
    flag("!=", a != b, x != y);
    flag("<", a < b, x < y);
    flag(">", a > b, x > y);
    flag("is_zero", a.is_zero(), an == 0);
    flag("is_unit", a.is_unit(), an == ad);
    if ((double)a != (double)an / (double)ad) R.viol(s(a) + " converts to another double");
    if ((float)a != (float)(int)an / (float)(int)ad) R.viol(s(a) + " converts to another float");
}
static void with_int(rat a, int k)
{
    I n = (I)a.num * k, d = (I)a.den * (k < 0 ? -k : k);
    if (fits(n)) { expect("int*", a, rat{k, 1}, k * a, n, a.den, false); R.eval(hash_mix(hash_mix(hash_mix(3, (uint32_t)a.num), (uint32_t)a.den), (uint32_t)k)); }
    if (k != 0 && fits(d)) expect("/int", a, rat{k, 1}, a / k, k < 0 ? -(I)a.num : (I)a.num, d, true);
    if (fits((I)a.den * k))
        if ((a != k) != ((I)a.num != (I)k * a.den)) R.viol(s(a) + " != " + std::to_string(k) + " is wrong");
}

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    uint64_t n    = argc > 2 ? strtoull(argv[2], 0, 10) : 200000;
    ref::Rng g(seed);
    if (seed % 1000 == 0)
    {
        std::vector<rat> v;
        for (int d = 1; d <= 16; ++d)
            for (int k = -16; k <= 16; ++k) v.push_back(rat{k, d}); // unreduced ones included
        for (auto a : v)
        {
            for (auto b : v) pair(a, b);
            for (int k = -20; k <= 20; ++k) with_int(a, k);
        }
        R.count("exhaustive_small");
    }
    auto mk = [&](int kind) -> rat {
        int d, m;
        switch (kind)
        {
        case 0: d = (int)g.range(1, 31), m = (int)g.range(-1000, 1000); break;
        case 1: d = (int)g.range(1, 1023), m = (int)g.range(-1000, 1000); break;
        case 2: d = (int)g.range(1, 40000), m = (int)g.range(-40000, 40000); break;
        case 3: d = 1 << g.below(15), m = (int)g.range(-300, 300); break;
        case 4: d = (int)g.range(1024, 300000), m = (int)g.range(-7000, 7000); break;
        default: d = (int)g.range(1, 5), m = (int)g.range(-2000000, 2000000); break;
        }
        int q = std::gcd(m, d);
        if (q > 1 && g.chance(80)) { m /= q; d /= q; }
        return rat{m, d};
    };
    for (uint64_t i = 0; i < n; ++i)
    {
        rat a = mk((int)g.below(6)), b = mk((int)g.below(6));
        pair(a, b);
        with_int(a, (int)g.range(-50, 50));
    }
    // histories: long chains stay exact as long as the exact value is in range
    for (uint64_t i = 0; i < n / 20; ++i)
    {
        rat a{0, 1};
        Q w{0, 1};
        std::string text;
        for (int k = 0; k < 12; ++k)
        {
            rat b{(int)g.range(-6, 6), (int)g.range(1, 6)};
            int op = (int)g.below(4);
            if (op == 3 && b.num == 0) continue;
            Q e = op == 0 ? Q{w.n * b.den + b.num * w.d, w.d * b.den} : op == 1 ? Q{w.n * b.den - b.num * w.d, w.d * b.den} : op == 2 ? Q{w.n * b.num, w.d * b.den} : Q{w.n * b.den, w.d * b.num};
            if (e.d < 0) { e.n = -e.n; e.d = -e.d; }
            if (e.d >= 1024 || e.n > 100000000 || e.n < -100000000) break;
            a = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
            w = norm(e);
            text += std::string(" ") + "+-*/"[op] + s(b);
            R.count("chain_steps");
            if (a.num != (int)w.n || a.den != (int)w.d) { R.viol("chain 0" + text + " gives " + s(a) + ", exact " + s(w)); break; }
        }
    }
    return R.finish();
}
