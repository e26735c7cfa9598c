// Monitor of the PGA motor functions: exponential, logarithm, normalisation.
// args: seed n
#include "api.hpp"

using namespace gal;
using namespace gal::pga;
static const ref::Table T(ref::Sig::make(3, 0, 1));
static Ctx c;

template <class V> M mline(line<V> const& l)
{
    return mv_from(T, {{12, -(long double)l.dx}, {10, l.dy}, {6, -(long double)l.dz}, {3, -(long double)l.mx}, {5, -(long double)l.my}, {9, -(long double)l.mz}});
}
template <class V> M mmotor(motor<V> const& m)
{
    static const uint32_t e[] = {0, 3, 5, 6, 9, 10, 12, 15};
    M o(T);
    for (int i = 0; i < 8; ++i) o[e[i]] = EV((long double)m[i]);
    return o;
}
// exponential by power series with scaling and squaring
static M series_exp(ref::Table const& T, M const& b)
{
    long double n = 0;
    for (auto& x : b.c) n += fabsl(x.v);
    int k = 0;
    while (n > 0.25L) { n /= 2; ++k; }
    M x = ref::scl(EV(ldexpl(1, -k)), b);
    M o = ref::scalar(T, EV(1)), t = o;
    for (int i = 1; i < 28; ++i)
    {
        t = ref::scl(EV(1.0L / i), ref::gp(t, x));
        o = ref::add(o, t);
    }
    for (; k; --k) o = ref::gp(o, o);
    return o;
}
static M series_exp(M const& b) { return series_exp(T, b); }
static double len(double x, double y, double z) { return std::sqrt(x * x + y * y + z * z); }

template <class V>
line<V> random_line(ref::Rng& g, int kind, double& angle, bool wide = false)
{
    double d[3], m[3];
    for (int i = 0; i < 3; ++i) d[i] = g.real(-1, 1), m[i] = g.real(-3, 3);
    if (kind % 4 == 1) { int a = (int)g.below(3); for (int i = 0; i < 3; ++i) d[i] = i == a ? (g.chance(50) ? 1 : -1) : 0; }
    if (kind % 4 == 2) d[g.below(3)] = 0;
    while (len(d[0], d[1], d[2]) < 0.05) d[0] += 0.5;
    switch (g.below(11))
    {
    case 0: angle = M_PI / 2; break;
    case 1: angle = g.real(1e-3, 0.05); break;
    case 2: angle = M_PI / 2 + g.real(-1e-5, 1e-5); break;
    case 3: angle = M_PI / 4 * (double)g.range(1, 3); break;
    case 4: angle = g.real(3.0, 3.13); break;
    case 5: angle = M_PI / 2 + g.real(-1e-3, 1e-3); break;
    case 6: angle = wide ? g.real(3.2, 25) : 1; break;             // beyond the principal range: exponential only
    case 7: angle = wide ? std::pow(10.0, -g.real(3, 7)) : 2; break;
    default: angle = g.real(0.05, 3.1);
    }
    double s = angle / len(d[0], d[1], d[2]);
    for (auto& x : d) x *= s;
    switch (g.below(7))
    {
    case 4: { double h = std::pow(10.0, g.real(-7, 5)); for (auto& x : m) x *= h; break; }
    case 0: m[0] = m[1] = m[2] = 0; break;                       // through the origin, no translation
    case 1: { double h = g.real(-2, 2); for (int i = 0; i < 3; ++i) m[i] = h * d[i]; break; } // screw along itself
    case 2: {                                                    // pure rotation: moment orthogonal to direction
        double k = (m[0] * d[0] + m[1] * d[1] + m[2] * d[2]) / (angle * angle);
        for (int i = 0; i < 3; ++i) m[i] -= k * d[i];
        break;
    }
    case 3: for (auto& x : m) x *= 50; break;
    default: break;
    }
    return line<V>((V)d[0], (V)d[1], (V)d[2], (V)m[0], (V)m[1], (V)m[2]);
}

template <class V>
void exp_log(ref::Rng& g, int trial, char const* tn)
{
    double angle;
    line<V> l = random_line<V>(g, trial, angle, true);
    char b[300];
    snprintf(b, sizeof b, "%s line(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g)", tn, (double)l.dx, (double)l.dy, (double)l.dz, (double)l.mx, (double)l.my, (double)l.mz);
    c.cur = b;
    if (trial == 3) printf("SAMPLE %s\n", b);
    c.R.eval(hash_bytes(&l, sizeof l));
    long double eps = sizeof(V) == 4 ? 6e-7L : 1e-14L;
    long double mag = (1 + fabsl(l.mx) + fabsl(l.my) + fabsl(l.mz)) * (1 + angle);
    long double sm  = 1 / angle + 1; // the direction is normalised on the way
    // rotational components do not depend on the moment and are as accurate as the angle itself
    auto near2 = [&](M const& got, M const& want, long double k, long double dual, char const* what) {
        M a = got, b = want;
        for (unsigned e = 1; e < 16; e += 2) a.c[e] = b.c[e];
        if (check_mv(c, a, b, k * eps * (1 + angle), what)) check_mv(c, got, want, dual, what);
    };
    M L = mline(l);
    motor<V> m = compute([](auto l) { return gal::exp(l); }, l);
    M E = series_exp(L);
    near2(mmotor(m), E, 60, 60 * eps * mag * sm, "exponential");
    // unit norm
    M one = ref::scalar(T, EV(1));
    near2(ref::gp(mmotor(m), ref::rev(mmotor(m))), one, 100, 100 * eps * mag * sm, "M ~M");
    M lib = mv_of(T, compute([](auto m) { return m * ~m; }, m));
    near2(lib, one, 100, 100 * eps * mag * sm, "compute M ~M");
    // inverse and powers
    motor<V> mi = compute([](auto l) { return gal::exp(-l); }, l);
    near2(mmotor(mi), ref::rev(E), 60, 60 * eps * mag * sm, "exp(-l)");
    motor<V> m2 = compute([](auto l) { return gal::exp(2 * l); }, l);
    near2(mmotor(m2), ref::gp(E, E), 200, 200 * eps * mag * sm, "exp(2 l)");
    motor<V> mh = compute([](auto l) { return gal::exp(l / 2); }, l);
    near2(mmotor(mh), series_exp(ref::scl(EV(0.5L), L)), 300, 300 * eps * mag * sm, "exp(l/2)");
    // logarithm: the pitch comes from a quotient that loses accuracy next to the half-turn and to the identity
    long double s1 = fabsl(cosl(angle)), s2 = fabsl(sinl(angle));
    if (angle > 3.14) c.R.count("exp_beyond_principal_range");
    else if (s2 > 1e-7L)
    {
        bool half        = s1 < 0.5e-6L;
        long double cond = half ? 1 : 1 / s1;
        long double tol  = 400 * eps * mag * cond / s2;
        if (tol < 0.05L * mag)
        {
            line<V> k = m.log();
            near2(mline(k), L, 60, tol, "log(exp(l))");
            motor<V> me = compute([](auto l) { return gal::exp(l); }, k);
            near2(mmotor(me), E, 300, 8 * tol * sm, "exp(log(exp(l)))");
            motor<V> mb(m.bivector().data_[0] * 0 + m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]);
            check_mv(c, mmotor(mb), mmotor(m), 0, "motor from components");
            c.R.count(half ? "log_half_turn" : "log_generic");
        }
        else c.R.count("log_skipped_ill_conditioned");
    }
}

template <class V>
void norms(ref::Rng& g, int trial, char const* tn)
{
    double d[8];
    for (auto& x : d) x = pick_value(g, trial % 4 == 3 ? 2 : trial % 4);
    if (trial % 5 == 1) { for (int i : {1, 2, 4, 7}) d[i] = 0; }      // pure rotor
    if (trial % 5 == 2) { for (int i : {3, 5, 6}) d[i] = 0; }         // translator-like
    double u = d[0] * d[0] + d[3] * d[3] + d[5] * d[5] + d[6] * d[6];
    if (u < 1e-2) { d[0] += 1; u = d[0] * d[0] + d[3] * d[3] + d[5] * d[5] + d[6] * d[6]; }
    if (u < 1e-2) return;
    static const double scales[] = {1, 1, 1, 1e-2, 1e-4, 1e-6, 1e-8, 1e3, 1e6, 1e8};
    double sc = scales[g.below(10)];                                  // any non-zero norm
    if (g.chance(40)) sc = std::pow(10.0, sizeof(V) == 4 ? g.real(-9, 9) : g.real(-60, 60));
    for (auto& x : d) x *= sc;
    motor<V> m((V)d[0], (V)d[1], (V)d[2], (V)d[3], (V)d[4], (V)d[5], (V)d[6], (V)d[7]);
    char b[300];
    snprintf(b, sizeof b, "%s motor(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g,%.9g,%.9g)", tn, (double)m[0], (double)m[1], (double)m[2], (double)m[3], (double)m[4], (double)m[5], (double)m[6], (double)m[7]);
    c.cur = b;
    c.R.eval(hash_bytes(&m, sizeof m));
    c.R.count("normalize");
    M before = mmotor(m), R2 = ref::gp(before, ref::rev(before));
    motor<V> n = m;
    n.normalize();
    long double eps = sizeof(V) == 4 ? 6e-7L : 1e-14L, mag = 1;
    for (double x : d) mag += fabs(x) / sc;
    mag = mag * mag / u;
    M N = mmotor(n);
    check_mv(c, ref::gp(N, ref::rev(N)), ref::scalar(T, EV(1)), 60 * eps * mag * mag, "norm after normalize");
    // N (s + t I) = M with (s + t I)^2 = M ~M, s > 0
    long double s = sqrtl(R2[0].v), t = R2[15].v / (2 * s);
    M back = ref::gp(N, mv_from(T, {{0, s}, {15, t}}));
    check_mv(c, back, before, 60 * eps * mag * mag * (sc + s), "normalize changed the motion");
    motor<V> nn = n;
    nn.normalize();
    check_mv(c, mmotor(nn), N, 60 * eps * mag * mag, "normalize is idempotent");
    // bivector part
    auto bv = m.bivector();
    M B = mv_of(T, bv);
    check_mv(c, B, ref::grade(before, 2), 0, "bivector part");
}

template <class V>
void unit_types(ref::Rng& g, char const* tn)
{
    // normalisation of vectors, rotors and translators only scales the axis
    V x = (V)g.real(-3, 3), y = (V)g.real(-3, 3), z = (V)g.real(-3, 3), th = (V)g.real(-6, 6);
    double l = len(x, y, z);
    if (l < 0.05) return;
    static const double scales[] = {1, 1, 1, 1e-3, 1e-6, 1e4, 1e7};
    V sc = (V)scales[g.below(7)];
    if (g.chance(40)) sc = (V)std::pow(10.0, sizeof(V) == 4 ? g.real(-15, 15) : g.real(-120, 120));
    x *= sc, y *= sc, z *= sc;
    l = len(x, y, z);
    long double eps = sizeof(V) == 4 ? 1e-6L : 1e-14L;
    c.cur = std::string(tn) + " normalize of (" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")";
    c.R.count("normalize_axis");
    auto ax = [&](auto& o, char const* w) {
        check_close(c, o.x, x / l, eps, w);
        check_close(c, o.y, y / l, eps, w);
        check_close(c, o.z, z / l, eps, w);
    };
    gal::vga::vector<V> v(x, y, z);
    v.normalize();
    ax(v, "vga vector");
    gal::vga::rotor<V> r(th, x, y, z);
    check_close(c, r.cos_theta, cosl((long double)th / 2), eps * 8, "vga rotor cosine");
    check_close(c, r.sin_theta, sinl((long double)th / 2), eps * 8, "vga rotor sine");
    V c0 = r.cos_theta, s0 = r.sin_theta;
    r.normalize();
    ax(r, "vga rotor");
    check_close(c, r.cos_theta, c0, 0, "vga rotor cosine kept");
    check_close(c, r.sin_theta, s0, 0, "vga rotor sine kept");
    rotor<V> q(th, x, y, z);
    check_close(c, q.cos_theta, cosl((long double)th / 2), eps * 8, "pga rotor cosine");
    check_close(c, q.sin_theta, sinl((long double)th / 2), eps * 8, "pga rotor sine");
    q.normalize();
    ax(q, "pga rotor");
    translator<V> t(th, x, y, z);
    t.normalize();
    ax(t, "translator");
    check_close(c, t.d, th, 0, "translator distance kept");
}

// exponentials inside larger expressions and of combined lines
template <class V>
void composed(ref::Rng& g, int trial, char const* tn)
{
    double a1, a2;
    line<V> l = random_line<V>(g, trial, a1), k = random_line<V>(g, trial + 1, a2);
    if (a1 < 0.05 || a2 < 0.05) return;
    char b[200];
    snprintf(b, sizeof b, "%s composed lines, angles %.6g %.6g", tn, a1, a2);
    c.cur = b;
    c.R.eval(hash_bytes(&l, sizeof l, hash_bytes(&k, sizeof k)));
    long double eps = sizeof(V) == 4 ? 6e-7L : 1e-14L;
    long double mag = 2;
    for (int i = 3; i < 6; ++i) mag += fabsl(l[i]) + fabsl(k[i]);
    M L = series_exp(mline(l)), K = series_exp(mline(k));
    long double tol = 3000 * eps * mag * mag * (1 / a1 + 1 / a2 + 1) * (1 / a1 + 1 / a2 + 1);
    M got = mv_of(T, compute([](auto l, auto k) { return gal::exp(k) * gal::exp(l); }, l, k));
    check_mv(c, got, ref::gp(K, L), tol, "exp(k) exp(l)");
    V x = (V)g.real(-3, 3), y = (V)g.real(-3, 3), z = (V)g.real(-3, 3);
    gal::vga::point<V> p(x, y, z);
    M Pm = mv_from(T, {{7, -(long double)z}, {11, y}, {13, -(long double)x}, {14, 1}});
    got = mv_of(T, gal::pga::compute([](auto l, auto p) { return p % gal::exp(l); }, l, p));
    check_mv(c, got, ref::sandwich(Pm, L), tol * 12, "p % exp(l)");
    c.R.count("composed");
}

// the exponential in the other algebras whose bivectors have a negative square
template <class V, class A, class F, class... E>
void other_exp(ref::Rng& g, ref::Table const& tab, int null, char const* tn, F f)
{
    std::array<V, 3> v{};
    double n = 0;
    for (int i = 0; i < 3; ++i) v[i] = (V)(g.chance(15) ? 0 : g.real(-2, 2));
    if (g.chance(20)) for (auto& x : v) x *= (V)3;
    for (int i = null; i < 3; ++i) n += (double)v[i] * v[i];
    n = std::sqrt(n);
    if (n < 0.02) return;
    gal::entity<A, V, 3, 5, 6> b{v[0], v[1], v[2]};
    char t[200];
    snprintf(t, sizeof t, "%s exp of bivector (%.9g,%.9g,%.9g)", tn, (double)v[0], (double)v[1], (double)v[2]);
    c.cur = t;
    c.R.eval(hash_bytes(&v, sizeof v));
    c.R.count(std::string("exp_") + tn);
    long double eps = (sizeof(V) == 4 ? 6e-7L : 1e-14L) * (1 + n) * 60 * (1 + 1 / n) * (1 + 1 / n) * (1 + fabsl(v[0]) + fabsl(v[1]));
    M B = mv_from(tab, {{3, v[0]}, {5, v[1]}, {6, v[2]}});
    check_mv(c, mv_of(tab, f(b)), series_exp(tab, B), eps, tn);
}

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    int n         = argc > 2 ? atoi(argv[2]) : 2000;
    ref::Rng g(seed * 977 + 5);
    for (int i = 0; i < n; ++i)
    {
        exp_log<double>(g, i, "double");
        if (i % 3 == 0) exp_log<float>(g, i / 3, "float");
        norms<double>(g, i, "double");
        if (i % 3 == 0) norms<float>(g, i / 3, "float");
        unit_types<double>(g, "double");
        unit_types<float>(g, "float");
        composed<double>(g, i, "double");
        static const ref::Table TV(ref::Sig::make(3, 0, 0)), T2(ref::Sig::make(2, 0, 1));
        auto fv = [](auto b) { return gal::vga::compute([](auto b) { return gal::exp(b); }, b); };
        auto f2 = [](auto b) { return gal::pga2::compute([](auto b) { return gal::exp(b); }, b); };
        other_exp<double, gal::vga::vga_algebra>(g, TV, 0, "vga", fv);
        other_exp<float, gal::vga::vga_algebra>(g, TV, 0, "vga-float", fv);
        other_exp<double, gal::pga2::pga2_algebra>(g, T2, 2, "pga2", f2);
    }
    c.R.count("compared", c.compared);
    return c.R.finish();
}
