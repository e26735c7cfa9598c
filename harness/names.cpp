// Monitor of the named types: what they denote inside expressions, and how they are rebuilt from
// results. The mapping tables below are written independently of the library.  args: seed n
#include "api.hpp"
#include "masks.hpp"

using namespace gal;
using gal::detail::compute;
static Ctx c;
static const ref::Table TV(ref::Sig::make(3, 0, 0)), TP(ref::Sig::make(3, 0, 1)), T2(ref::Sig::make(2, 0, 1)), TC(ref::Sig::make(4, 1, 0));

struct Co { uint32_t e; int s; }; // stored value i is s * coefficient of e
template <class A> ref::Table const& table()
{
    if constexpr (std::is_same_v<A, vga::vga_algebra>) return TV;
    else if constexpr (std::is_same_v<A, pga::pga_algebra>) return TP;
    else if constexpr (std::is_same_v<A, pga2::pga2_algebra>) return T2;
    else return TC;
}
static double value(ref::Rng& g)
{
    if (g.chance(8)) return g.real(-5, 5) * std::pow(10.0, g.range(-15, 15)); // extreme magnitudes
    if (g.chance(8)) return (g.chance(50) ? 1.0 : -1.0) * (1 + g.real(-1, 1) * std::pow(10.0, -g.range(2, 7))); // next to one
    return pick_value(g, (int)g.below(6));
}

static std::string text(char const* nm, char const* tn, double const* d, int n)
{
    std::string s = std::string(nm) + "<" + tn + ">(";
    for (int i = 0; i < n; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.17g", i ? ", " : "", d[i]); s += b; }
    return s + ")";
}
template <class X, class V> bool same(X const& a, V const* d, int n, char const* what)
{
    ++c.compared;
    for (int i = 0; i < n; ++i)
        if (!(a[i] == d[i]))
        {
            char b[160];
            snprintf(b, sizeof b, " [%s] coordinate %d is %.17g, expected %.17g", what, i, (double)a[i], (double)d[i]);
            c.R.viol(c.cur + b);
            return false;
        }
    return true;
}

// builds X from an entity holding any subset of elements: stored values or zero
template <class X, class A, class V, uint64_t mask>
void from_sparse(ref::Rng& g, char const* nm, char const* tn, std::vector<Co> const& co)
{
    masked_t<A, V, mask> in{};
    std::vector<double> coef(64, 0);
    if constexpr (mask != 0)
        for (size_t i = 0; i < in.size(); ++i) { in[i] = (V)value(g); coef[in.elements[i]] = (double)in[i]; }
    X x = in;
    V want[8];
    for (size_t i = 0; i < co.size(); ++i) want[i] = (V)(co[i].s * coef[co[i].e]);
    char b[80];
    snprintf(b, sizeof b, "%s<%s> built from an entity with element mask 0x%llx", nm, tn, (unsigned long long)mask);
    c.cur = b;
    c.R.eval(hash_mix(hash_bytes(nm, strlen(nm)), mask * 4 + sizeof(V) / 4));
    same(x, want, (int)co.size(), "sparse result");
}
template <class X, class A, class V, uint64_t own, size_t... K>
void all_sparse(ref::Rng& g, char const* nm, char const* tn, std::vector<Co> const& co, std::index_sequence<K...>)
{
    constexpr uint64_t lim = (uint64_t(1) << (1 << A::metric_t::dimension)) - 1;
    // subsets of the type's own elements, then arbitrary subsets of the algebra
    (from_sparse<X, A, V, (mix(K * 2 + 1) & own)>(g, nm, tn, co), ...);
    (from_sparse<X, A, V, (mix(K * 3 + 77) & lim & mix(K + 999))>(g, nm, tn, co), ...);
    from_sparse<X, A, V, 0>(g, nm, tn, co);
    from_sparse<X, A, V, own>(g, nm, tn, co);
}

// ---- types whose stored values are plus or minus a coefficient each
template <class X, class A, class V, uint64_t own, size_t N, size_t... I>
void plain(ref::Rng& g, char const* nm, char const* tn, std::vector<Co> const& co, uint64_t n, std::index_sequence<I...>)
{
    static_assert(sizeof(X) == N * sizeof(V), "size");
    static_assert(X::size() == N);
    static_assert(std::is_same_v<typename X::value_t, V>);
    ref::Table const& T = table<A>();
    for (uint64_t t = 0; t < n; ++t)
    {
        double d[N];
        V v[N];
        for (auto& x : d) x = value(g);
        for (size_t i = 0; i < N; ++i) v[i] = (V)d[i], d[i] = (double)v[i];
        X x{v[I]...};
        c.cur = text(nm, tn, d, N);
        c.R.eval(hash_doubles(d, N, hash_bytes(nm, strlen(nm), sizeof(V))));
        same(x, v, N, "construction");
        M want(T);
        for (size_t i = 0; i < N; ++i) want[co[i].e] = EV((long double)co[i].s * d[i]);
        auto r = compute<A>([](auto a) { return a; }, x);
        check_entity<V>(c, r, want, "identity");
        X back = r;
        same(back, v, N, "round trip");
        auto s = compute<A>([](auto a) { return 3 * a; }, x);
        X trip = s;
        V w3[N];
        for (size_t i = 0; i < N; ++i) w3[i] = V(3) * v[i];
        same(trip, w3, N, "scaled round trip");
        X y = x;
        X z{v[I]...};
        z = compute<A>([](auto a, auto b) { return a + b - b; }, y, x);
        bool fin = true;
        for (size_t i = 0; i < N; ++i) fin = fin && std::abs((double)z[i] - d[i]) <= 1e-6 * (1 + std::abs(d[i]));
        ++c.compared;
        if (!fin) c.R.viol(c.cur + " assignment of a+b-b is not a");
    }
    all_sparse<X, A, V, own>(g, nm, tn, co, std::make_index_sequence<24>{});
}

template <class V> V pickw(ref::Rng& g)
{
    switch (g.below(8))
    {
    case 5: return (V)((g.chance(50) ? 1 : -1) * g.real(0.1, 1) * std::pow(10.0, g.range(-14, 15)));
    case 6: return (V)((g.chance(50) ? 1 : -1) * (1 + g.real(-1, 1) * std::pow(10.0, -g.range(2, 7))));
    case 7: return (V)((g.chance(50) ? 1 : -1) * std::ldexp(1.0, (int)g.range(-40, 40)));
    case 0: return V(-1);
    case 1: return (V)g.real(0.1, 9);
    case 2: return (V)-g.real(0.1, 9);
    case 3: return (V)(g.chance(50) ? 0.25 : -4);
    default: return V(1);
    }
}
static bool near_(double a, double b, double eps, char const* what)
{
    ++c.compared;
    if (std::abs(a - b) <= eps * (1 + std::abs(b)) * 8) return true;
    char s[160];
    snprintf(s, sizeof s, " [%s] is %.17g, expected %.17g", what, a, b);
    c.R.viol(c.cur + s);
    return false;
}

template <class V>
void points(ref::Rng& g, char const* tn, uint64_t n)
{
    double eps = std::numeric_limits<V>::epsilon();
    for (uint64_t t = 0; t < n; ++t)
    {
        double d[4];
        for (auto& x : d) x = (double)(V)value(g);
        V x = (V)d[0], y = (V)d[1], z = (V)d[2], w = pickw<V>(g);
        d[3]  = (double)w;
        c.cur = text("point", tn, d, 4);
        c.R.eval(hash_doubles(d, 4, 17 + sizeof(V)));
        // three dimensions
        {
            vga::point<V> p(x, y, z);
            V v[3] = {x, y, z};
            same(p, v, 3, "vga point construction");
            if (!(p.x == x && p.y == y && p.z == z)) c.R.viol(c.cur + " vga point names");
            auto r = gal::pga::compute([](auto a) { return a; }, p);
            check_entity<V>(c, r, mv_from(TP, {{7, -d[2]}, {11, d[1]}, {13, -d[0]}, {14, 1}}), "vga point identity");
            vga::point<V> q = r;
            same(q, v, 3, "vga point round trip");
            pga::point<V> pp = p;
            check_entity<V>(c, pp, mv_from(TP, {{7, -d[2]}, {11, d[1]}, {13, -d[0]}, {14, 1}}), "vga point to pga point");
            auto s = gal::pga::compute([](auto k, auto a) { return k * a; }, w, p);
            vga::point<V> h = s;
            near_(h.x, d[0], eps, "weighted point x");
            near_(h.y, d[1], eps, "weighted point y");
            near_(h.z, d[2], eps, "weighted point z");
            // projection of hand-made homogeneous entities, some coordinates absent
            entity<pga::pga_algebra, V, 7, 14> e1{{(V)(-d[2]), w}};
            vga::point<V> h1 = e1;
            near_(h1.x, 0, eps, "sparse point x");
            near_(h1.y, 0, eps, "sparse point y");
            near_(h1.z, d[2] / d[3], eps, "sparse point z");
            entity<pga::pga_algebra, V, 0, 11, 13, 14, 15> e2{{V(5), (V)d[1], (V)(-d[0]), w, V(7)}};
            vga::point<V> h2 = e2;
            near_(h2.x, d[0] / d[3], eps, "cluttered point x");
            near_(h2.y, d[1] / d[3], eps, "cluttered point y");
            near_(h2.z, 0, eps, "cluttered point z");
            entity<pga::pga_algebra, V, 14> e3{{w}};
            vga::point<V> h3 = e3;
            near_(std::abs(h3.x) + std::abs(h3.y) + std::abs(h3.z), 0, eps, "origin");
        }
        // the plane
        {
            pga2::point<V> p(x, y);
            V v[2] = {x, y};
            same(p, v, 2, "pga2 point construction");
            if (!(p.x == x && p.y == y && p.u == x && p.v == y && p.s == x && p.t == y)) c.R.viol(c.cur + " pga2 point names");
            auto r = gal::pga2::compute([](auto a) { return a; }, p);
            check_entity<V>(c, r, mv_from(T2, {{3, d[1]}, {5, -d[0]}, {6, 1}}), "pga2 point identity");
            pga2::point<V> q = r;
            same(q, v, 2, "pga2 point round trip");
            auto s = gal::pga2::compute([](auto k, auto a) { return k * a; }, w, p);
            pga2::point<V> h = s;
            near_(h.x, d[0], eps, "weighted point x");
            near_(h.y, d[1], eps, "weighted point y");
            entity<pga2::pga2_algebra, V, 5, 6> e1{{(V)(-d[0]), w}};
            pga2::point<V> h1 = e1;
            near_(h1.x, d[0] / d[3], eps, "sparse point x");
            near_(h1.y, 0, eps, "sparse point y");
            entity<pga2::pga2_algebra, V, 0, 3, 6, 7> e2{{V(3), (V)d[1], w, V(2)}};
            pga2::point<V> h2 = e2;
            near_(h2.x, 0, eps, "cluttered point x");
            near_(h2.y, d[1] / d[3], eps, "cluttered point y");
        }
        // conformal
        {
            cga::point<V> p(x, y, z);
            V v[3] = {x, y, z};
            same(p, v, 3, "cga point construction");
            if (!(p.x == x && p.y == y && p.z == z && p.u == x && p.v == y && p.w == z)) c.R.viol(c.cur + " cga point names");
            auto r = gal::cga::compute([](auto a) { return a; }, p);
            long double n2 = ((long double)d[0] * d[0] + (long double)d[1] * d[1] + (long double)d[2] * d[2]) / 2;
            M want = mv_from(TC, {{1, d[0]}, {2, d[1]}, {4, d[2]}, {8, 1}, {16, n2}});
            // the change of basis passes through values as large as the squared length
            for (auto e : {8, 16}) want[e].m += 2 * n2 + 1;
            check_entity<V>(c, r, want, "cga point identity");
            cga::point<V> q = r;
            same(q, v, 3, "cga point round trip");
            entity<cga::cga_algebra, V, 2, 9> e1{{(V)d[1], w}};
            cga::point<V> h = e1;
            V hv[3] = {0, (V)d[1], 0};
            same(h, hv, 3, "cga point from sparse entity");
        }
        // rotors and translators
        {
            double th = g.real(-7, 7);
            V theta   = (V)th;
            vga::rotor<V> a(theta, x, y, z);
            pga::rotor<V> b(theta, x, y, z);
            long double ch = cosl((long double)theta / 2), sh = sinl((long double)theta / 2);
            for (int k = 0; k < 2; ++k)
            {
                V r[5];
                for (int i = 0; i < 5; ++i) r[i] = k ? b[i] : a[i];
                near_(r[0], ch, eps, "cosine of half the angle");
                near_(r[1], sh, eps, "sine of half the angle");
                V v[3] = {x, y, z};
                same(r + 2, v, 3, "rotor axis");
            }
            if (!(a.cos_theta == a[0] && a.sin_theta == a[1] && a.x == x && a.y == y && a.z == z && b.cos_theta == b[0] && b.sin_theta == b[1] && b.x == x && b.y == y && b.z == z))
                c.R.viol(c.cur + " rotor names");
            auto ra = gal::vga::compute([](auto m) { return m; }, a);
            long double S = a[1];
            check_entity<V>(c, ra, mv_from(TV, {{0, a[0]}, {3, -S * d[2]}, {5, S * d[1]}, {6, -S * d[0]}}), "vga rotor identity");
            auto rb = gal::pga::compute([](auto m) { return m; }, b);
            S = b[1];
            check_entity<V>(c, rb, mv_from(TP, {{0, b[0]}, {6, S * d[2]}, {10, -S * d[1]}, {12, S * d[0]}}), "pga rotor identity");
            V dist = (V)g.real(-5, 5);
            pga::translator<V> tr(dist, x, y, z);
            if (!(tr.d == dist && tr.x == x && tr.y == y && tr.z == z && tr[0] == dist && tr[1] == x && tr[2] == y && tr[3] == z)) c.R.viol(c.cur + " translator names");
            auto rt = gal::pga::compute([](auto m) { return m; }, tr);
            long double D = dist;
            check_entity<V>(c, rt, mv_from(TP, {{0, 1}, {3, -D * d[0] / 2}, {5, -D * d[1] / 2}, {9, -D * d[2] / 2}}), "translator identity");
            double l = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            if (l > 1e-3)
            {
                vga::vector<V> vn(x, y, z);
                vn.normalize();
                a.normalize();
                b.normalize();
                tr.normalize();
                for (int i = 0; i < 3; ++i)
                {
                    near_(vn[i], d[i] / l, eps, "normalised vector");
                    near_(a[2 + i], d[i] / l, eps, "normalised rotor axis");
                    near_(b[2 + i], d[i] / l, eps, "normalised pga rotor axis");
                    near_(tr[1 + i], d[i] / l, eps, "normalised translator axis");
                }
                near_(a[0], ch, eps, "normalised rotor keeps its angle");
                near_(a[1], sh, eps, "normalised rotor keeps its angle");
                near_(b[1], sh, eps, "normalised pga rotor keeps its angle");
                near_(tr[0], dist, eps, "normalised translator keeps its distance");
            }
        }
        // arrays and parts
        {
            std::array<V, 8> m;
            std::array<V, 6> l;
            for (auto& q : m) q = (V)value(g);
            for (auto& q : l) q = (V)value(g);
            pga::motor<V> mm(m);
            same(mm, m.data(), 8, "motor from array");
            auto bv = mm.bivector();
            static const uint32_t be[] = {3, 5, 6, 9, 10, 12};
            M want(TP);
            for (int i = 0; i < 6; ++i) want[be[i]] = EV((long double)m[i + 1]);
            check_entity<V>(c, bv, want, "bivector of a motor");
            pga::line<V> ll(l);
            same(ll, l.data(), 6, "line from array");
            if (!(ll.dx == l[0] && ll.dy == l[1] && ll.dz == l[2] && ll.mx == l[3] && ll.my == l[4] && ll.mz == l[5])) c.R.viol(c.cur + " line names");
            pga::plane<V> pl(l[0], l[1], l[2], l[3]);
            if (!(pl.d == l[0] && pl.x == l[1] && pl.y == l[2] && pl.z == l[3])) c.R.viol(c.cur + " plane names");
            pga::vector<V> pv(l[0], l[1], l[2]);
            if (!(pv.x == l[0] && pv.y == l[1] && pv.z == l[2])) c.R.viol(c.cur + " pga vector names");
            vga::vector<V> vv(l[0], l[1], l[2]);
            if (!(vv.x == l[0] && vv.u == l[0] && vv.y == l[1] && vv.v == l[1] && vv.z == l[2] && vv.w == l[2])) c.R.viol(c.cur + " vga vector names");
            pga2::line<V> l2(l[0], l[1], l[2]);
            if (!(l2.d == l[0] && l2.x == l[1] && l2.y == l[2])) c.R.viol(c.cur + " pga2 line names");
        }
    }
}

template <class V>
void all(uint64_t seed, uint64_t n, char const* tn)
{
    ref::Rng g(seed * 7 + sizeof(V));
    plain<vga::vector<V>, vga::vga_algebra, V, 0b10110, 3>(g, "vga::vector", tn, {{1, 1}, {2, 1}, {4, 1}}, n, std::make_index_sequence<3>{});
    plain<pga::plane<V>, pga::pga_algebra, V, 0x116, 4>(g, "pga::plane", tn, {{1, 1}, {2, 1}, {4, 1}, {8, 1}}, n, std::make_index_sequence<4>{});
    plain<pga::vector<V>, pga::pga_algebra, V, (1 << 7 | 1 << 11 | 1 << 13), 3>(g, "pga::vector", tn, {{13, -1}, {11, 1}, {7, -1}}, n, std::make_index_sequence<3>{});
    plain<pga::line<V>, pga::pga_algebra, V, (1 << 3 | 1 << 5 | 1 << 6 | 1 << 9 | 1 << 10 | 1 << 12), 6>(
        g, "pga::line", tn, {{12, -1}, {10, 1}, {6, -1}, {3, -1}, {5, -1}, {9, -1}}, n, std::make_index_sequence<6>{});
    plain<pga::motor<V>, pga::pga_algebra, V, (1 | 1 << 3 | 1 << 5 | 1 << 6 | 1 << 9 | 1 << 10 | 1 << 12 | 1 << 15), 8>(
        g, "pga::motor", tn, {{0, 1}, {3, 1}, {5, 1}, {6, 1}, {9, 1}, {10, 1}, {12, 1}, {15, 1}}, n, std::make_index_sequence<8>{});
    plain<pga2::line<V>, pga2::pga2_algebra, V, 0b10110, 3>(g, "pga2::line", tn, {{1, 1}, {2, 1}, {4, 1}}, n, std::make_index_sequence<3>{});
    points<V>(g, tn, n);
}

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, n = argc > 2 ? strtoull(argv[2], 0, 10) : 2000;
    all<double>(seed, n, "double");
    all<float>(seed, n, "float");
    c.R.count("compared", c.compared);
    return c.R.finish();
}
