// Monitor of the conformal algebra's geometric meaning.  args: seed n
#include "api.hpp"

using namespace gal;
using namespace gal::cga;
static Ctx c;
using L = long double;

static bool near_(L a, L b, L tol, char const* what)
{
    ++c.compared;
    if (fabsl(a - b) <= tol) return true;
    char s[200];
    snprintf(s, sizeof s, " [%s] is %.15Lg, expected %.15Lg (tolerance %.1Lg)", what, a, b, tol);
    c.R.viol(c.cur + s);
    return false;
}
template <class En> L sc(En const& r) { if constexpr (En::size() == 0) return 0; else { En const& k = r; return (L)k.select(elem_t(0)); } }
template <class En> L co(En const& r, uint32_t e) { En const& k = r; return (L)k.select((elem_t)e); }

template <class V>
void run(uint64_t seed, uint64_t n, char const* tn)
{
    ref::Rng g(seed);
    L eps = 60 * std::numeric_limits<V>::epsilon();
    auto comp = [](auto f, auto const&... a) { return gal::cga::compute(f, a...); };
    for (uint64_t i = 0; i < n; ++i)
    {
        V a[3], b[3], t[3];
        for (int k = 0; k < 3; ++k)
        {
            a[k] = (V)(g.chance(25) ? (double)g.range(-3, 3) : g.real(-4, 4));
            b[k] = (V)(g.chance(25) ? (double)g.range(-3, 3) : g.real(-4, 4));
            t[k] = (V)g.real(-3, 3);
        }
        double d[9] = {a[0], a[1], a[2], b[0], b[1], b[2], t[0], t[1], t[2]};
        c.R.eval(hash_doubles(d, 9, sizeof(V)));
        char s[200];
        snprintf(s, sizeof s, "%s p(%.9g %.9g %.9g) q(%.9g %.9g %.9g)", tn, d[0], d[1], d[2], d[3], d[4], d[5]);
        c.cur = s;
        point<V> p(a[0], a[1], a[2]), q(b[0], b[1], b[2]);
        L pp = 0, qq = 0, dd = 0, tt = 0;
        for (int k = 0; k < 3; ++k) pp += (L)a[k] * a[k], qq += (L)b[k] * b[k], dd += ((L)a[k] - b[k]) * ((L)a[k] - b[k]), tt += (L)t[k] * t[k];
        L m = (1 + pp) * (1 + qq);
        auto sq = comp([](auto p) { return p * p; }, p);
        for (uint32_t e = 0; e < 32; ++e) near_(co(sq, e), 0, eps * (1 + pp) * (1 + pp), "square of a point");
        auto in = comp([](auto p, auto q) { return p | q; }, p, q);
        near_(sc(in), -dd / 2, eps * m, "inner product of two points");
        for (uint32_t e = 1; e < 32; ++e) near_(co(in, e), 0, eps * m, "inner product of two points is scalar");
        auto in2 = comp([](auto p, auto q) { return scalar_product(q, p); }, p, q);
        near_(sc(in2), -dd / 2, eps * m, "scalar product of two points");
        near_(sc(comp([](auto p) { return p | 1_ni; }, p)), -1, eps * (1 + pp), "point times infinity");
        near_(sc(comp([](auto p) { return p | 1_no; }, p)), -pp / 2, eps * (1 + pp), "point times origin");
        // distances in a larger or smaller space
        int e2 = (int)g.range(-20, 20);
        auto z = [&](V x) { return (V)std::ldexp((double)x, e2); };
        point<V> ph(z(a[0]), z(a[1]), z(a[2])), qh(z(b[0]), z(b[1]), z(b[2]));
        auto ih = comp([](auto p, auto q) { return p | q; }, ph, qh);
        near_(ldexpl(sc(ih), -2 * e2), -dd / 2, eps * m, "inner product of two points in a scaled space");
        auto id = comp([](auto p) { return p; }, ph);
        near_(ldexpl(co(id, 16), -2 * e2), pp / 2, eps * (1 + pp), "embedding in a scaled space");
        for (int k = 0; k < 3; ++k) near_(ldexpl(co(id, 1u << k), -e2), a[k], eps * 8, "coordinates in a scaled space");
        near_(co(id, 8), 1, eps * 8, "weight in a scaled space");
        point<V> bh = id;
        for (int k = 0; k < 3; ++k) near_(ldexpl(bh[k], -e2), a[k], eps * 8, "read back in a scaled space");
        c.R.count("scaled_space");
        // sphere about q with squared radius r2: s = q - r2/2 ni
        V r2 = (V)g.real(0.1, 9);
        auto sp = comp([](auto p, auto q, auto r) { return p | (q - r / 2 * 1_ni); }, p, q, r2);
        near_(sc(sp), ((L)r2 - dd) / 2, eps * (m + r2), "power of a point with respect to a sphere");
        // plane with normal t through the point at distance h: t + h ni
        entity<cga_algebra, V, 1, 2, 4> nrm{{t[0], t[1], t[2]}};
        V h = (V)g.real(-3, 3);
        auto pl = comp([](auto p, auto n, auto h) { return p | (n + h * 1_ni); }, p, nrm, h);
        near_(sc(pl), (L)a[0] * t[0] + (L)a[1] * t[1] + (L)a[2] * t[2] - h, eps * (1 + pp) * (1 + tt) * 4, "distance from a plane");
        // translation
        auto mv = comp([](auto p, auto t) { return p % (1 - t * 1_ni / 2); }, p, nrm);
        L w = co(mv, 8);
        L mm = eps * (1 + pp + tt) * (1 + tt) * 10;
        near_(w, 1, mm, "weight of a translated point");
        for (int k = 0; k < 3; ++k) near_(co(mv, 1u << k), (L)a[k] + t[k], mm, "translated point");
        L nn = 0;
        for (int k = 0; k < 3; ++k) nn += ((L)a[k] + t[k]) * ((L)a[k] + t[k]);
        near_(co(mv, 16), nn / 2, mm * 4, "square of a translated point");
        point<V> back = mv;
        for (int k = 0; k < 3; ++k) near_(back[k], (L)a[k] + t[k], mm, "translated point read back");
        // literals in the null basis
        if (i % 16 == 0)
        {
            V one_ = 1;
            auto oo = comp([](auto k) { return k * (1_no * 1_no); }, one_);
            auto ii = comp([](auto k) { return k * (1_ni * 1_ni); }, one_);
            for (uint32_t e = 0; e < 32; ++e) near_(co(oo, e), 0, eps, "no squared"), near_(co(ii, e), 0, eps, "ni squared");
            near_(sc(comp([](auto k) { return k * (1_no | 1_ni); }, one_)), -1, eps, "no inner ni");
            auto oi = comp([](auto k) { return k * (1_no * 1_ni); }, one_);
            near_(co(oi, 0), -1, eps, "no ni scalar part");
            near_(co(oi, 24), 1, eps, "no ni bivector part");
            near_(co(comp([](auto k) { return k * 1_no; }, one_), 8), 1, eps, "no literal");
            near_(co(comp([](auto k) { return k * 1_ni; }, one_), 16), 1, eps, "ni literal");
            auto ps = comp([](auto k) { return k * (1_ps * 1_ips); }, one_);
            near_(co(ps, 0), 1, eps, "pseudoscalar times its inverse");
            c.R.count("literal_checks");
        }
    }
}
int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, n = argc > 2 ? strtoull(argv[2], 0, 10) : 2000;
    run<double>(seed * 2, n, "double");
    run<float>(seed * 2 + 1, n, "float");
    c.R.count("compared", c.compared);
    return c.R.finish();
}
