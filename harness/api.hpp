#pragma once
// Support for generated programs that drive the library through its public interface and watch
// every result against the reference algebra in ref.hpp.
#include "ref.hpp"
#include "report.hpp"
#include <gal/vga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/cga.hpp>
#include <gal/format.hpp>
#include <cfloat>
#include <cstring>
#include <limits>
#include <tuple>

// A reference value together with the magnitude its fully expanded form has. Rounding errors of any
// evaluation order are bounded by a small multiple of epsilon times this magnitude.
static bool g_bad;     // the reference left the domain where results are defined (division by ~0, ...)
static bool g_extreme; // values of extreme magnitude: watch the range of every intermediate
static long double g_limit = 1e120L;
inline long double watch(long double m)
{
    if (g_extreme && m != 0 && !(m < g_limit && m * g_limit > 1)) g_bad = true;
    return m;
}
struct EV
{
    long double v = 0, m = 0;
    EV() = default;
    EV(long double x) : v(x), m(x < 0 ? -x : x) {}
    EV(double x) : EV((long double)x) {}
    EV(int x) : EV((long double)x) {}
    EV(long double x, long double y) : v(x), m(y) {}
    friend EV operator+(EV a, EV b) { return {a.v + b.v, a.m + b.m}; }
    friend EV operator-(EV a, EV b) { return {a.v - b.v, a.m + b.m}; }
    friend EV operator*(EV a, EV b) { return {a.v * b.v, watch(a.m * b.m)}; }
};
using M = ref::MV<EV>;

inline EV ev_div(EV a, EV b)
{
    long double d = fabsl(b.v);
    if (!(d > 1e-3L * b.m) || (!g_extreme && d < 1e-6L)) { g_bad = true; return a; }
    watch(d);
    return {a.v / b.v, watch(a.m / d * (1 + b.m / d))};
}
inline EV ev_sqrt(EV a)
{
    if (!(a.v > 1e-3L * a.m) || (!g_extreme && a.v < 1e-6L)) { g_bad = true; return a; }
    long double s = sqrtl(a.v);
    return {s, s + a.m / s};
}
inline EV ev_sin(EV a) { if (a.m > 1e4L) g_bad = true; long double s = sinl(a.v); return {s, fabsl(s) + a.m}; }
inline EV ev_cos(EV a) { if (a.m > 1e4L) g_bad = true; return {cosl(a.v), 1 + a.m}; }
inline EV ev_tan(EV a)
{
    if (a.m > 1e4L || fabsl(cosl(a.v)) < 1e-2L) g_bad = true;
    long double t = tanl(a.v);
    return {t, fabsl(t) + a.m * (1 + t * t)};
}
inline M r_div(M const& a, M const& b)
{
    M o = a;
    for (auto& x : o.c) x = ev_div(x, b[0]);
    return o;
}
inline M r_sqrt(M const& a) { return ref::scalar(*a.T, ev_sqrt(a[0])); }
inline M r_sin(M const& a) { return ref::scalar(*a.T, ev_sin(a[0])); }
inline M r_cos(M const& a) { return ref::scalar(*a.T, ev_cos(a[0])); }
inline M r_tan(M const& a) { return ref::scalar(*a.T, ev_tan(a[0])); }
inline M r_int(ref::Table const& T, long double k) { return ref::scalar(T, EV(k)); }
inline M r_scl(long double k, M const& a) { return ref::scl(EV(k), a); }
inline M r_divi(M const& a, long double k) { return ref::scl(EV(1.0L / k), a); }
inline M r_blade(ref::Table const& T, uint32_t e, long double k) { return ref::blade(T, e, EV(k)); }
inline M to_nat(M const& a) { return ref::null_to_natural(a, EV(0.5L)); }
inline M to_null(M const& a) { return ref::natural_to_null(a, EV(0.5L)); }
// component and grade selection read the null basis in CGA
inline M r_comp_null(M const& a, uint32_t e) { return ref::comp(to_null(a), e); }
static const long double PI_L = 3.14159265358979323846264338327950288L;
static const long double E_L  = 2.71828182845904523536028747135266250L;

template <class V> constexpr long double tol_of() { return sizeof(V) == 4 ? 3e-5L : 2e-12L; }

struct Ctx
{
    Report R;
    std::string only;
    uint64_t seed    = 1;
    int trials       = 20;
    std::string cur;
    uint64_t skipped = 0, compared = 0;
    long double extra = 0; // additional relative tolerance (coefficients that may be rounded)
    bool elems = false; // print the element list of every result once
    std::set<std::string> noted;
    template <class En>
    void note_elems(En const&, char const* what)
    {
        std::string k = cur + " [" + what + "]";
        if (!noted.insert(k).second) return;
        printf("EL %s :", k.c_str());
        if constexpr (En::size() != 0)
            for (auto e : En::elements) printf(" %u", (unsigned)e);
        printf("\n");
    }
};

template <class En>
std::string show_entity(En const& r)
{
    std::string s;
    if constexpr (En::size() == 0) return "0";
    else
        for (size_t i = 0; i < En::size(); ++i)
        {
            char b[64];
            snprintf(b, sizeof b, "%s%.17Lg<%u>", i ? " " : "", (long double)r[i], (unsigned)En::elements[i]);
            s += b;
        }
    return s;
}
inline std::string show_mv(M const& m)
{
    std::string s;
    for (uint32_t i = 0; i < m.c.size(); ++i)
        if (m.c[i].m != 0)
        {
            char b[64];
            snprintf(b, sizeof b, " %.17Lg<%u>", m.c[i].v, i);
            s += b;
        }
    return s.empty() ? " 0" : s;
}

// Compare a library result with the reference. Every basis element is compared: the ones the
// result type omits must be zero.
template <class Expect = void, class En>
bool check_entity(Ctx& c, En const& r, M const& want, char const* what = "result")
{
    using V = typename En::value_t;
    if constexpr (!std::is_void_v<Expect>)
    {
        if constexpr (!std::is_same_v<Expect, V>)
        {
            c.R.viol(c.cur + " [" + what + "] the value type of the result is not that of the inputs");
            return false;
        }
    }
    if (c.elems) c.note_elems(r, what);
    std::vector<long double> got(want.c.size(), 0);
    std::string why;
    if constexpr (En::size() != 0)
    {
        uint32_t prev = 0;
        for (size_t i = 0; i < En::size(); ++i)
        {
            uint32_t e = En::elements[i];
            if (e >= got.size()) { why = "element index out of range"; break; }
            if (i && e <= prev) why = "elements of the result are not strictly increasing";
            prev   = e;
            got[e] = (long double)r[i];
        }
    }
    for (uint32_t e = 0; e < got.size() && why.empty(); ++e)
    {
        long double tol = (tol_of<V>() + c.extra) * want.c[e].m + (g_extreme && sizeof(V) == 8 ? 1e-200L : 1e-30L);
        long double d   = fabsl(got[e] - want.c[e].v);
        if (!(d <= tol))
        {
            char b[160];
            snprintf(b, sizeof b, "element %u is %.17Lg, expected %.17Lg (tolerance %.2Lg)", e, got[e], want.c[e].v, tol);
            why = b;
        }
    }
    ++c.compared;
    if (why.empty()) return true;
    c.R.viol(c.cur + " [" + what + "] " + why + "; got {" + show_entity(r) + "} want {" + show_mv(want) + " }");
    return false;
}

// Exact sparsity: the result type holds exactly the given basis elements.
template <class En>
bool check_support(Ctx& c, En const&, std::vector<uint32_t> const& want)
{
    std::vector<uint32_t> got;
    if constexpr (En::size() != 0)
        for (size_t i = 0; i < En::size(); ++i) got.push_back(En::elements[i]);
    ++c.compared;
    if (got == want) return true;
    std::string s = c.cur + " [support] result holds elements {";
    for (auto e : got) s += std::to_string(e) + " ";
    s += "} but exactly {";
    for (auto e : want) s += std::to_string(e) + " ";
    s += "} can be non-zero";
    c.R.viol(s);
    return false;
}

inline bool check_close(Ctx& c, long double got, long double want, long double tol, char const* what)
{
    ++c.compared;
    if (fabsl(got - want) <= tol) return true;
    char b[160];
    snprintf(b, sizeof b, "is %.17Lg, expected %.17Lg (tolerance %.2Lg)", got, want, tol);
    c.R.viol(c.cur + " [" + what + "] " + b);
    return false;
}

// The multivector an entity denotes.
template <class En>
M mv_of(ref::Table const& T, En const& r)
{
    M m(T);
    if constexpr (En::size() != 0)
        for (size_t i = 0; i < En::size(); ++i) m[En::elements[i]] = m[En::elements[i]] + EV((long double)r[i]);
    return m;
}
inline M mv_from(ref::Table const& T, std::initializer_list<std::pair<uint32_t, long double>> l)
{
    M m(T);
    for (auto& p : l) m[p.first] = m[p.first] + EV(p.second);
    return m;
}
inline bool check_mv(Ctx& c, M const& got, M const& want, long double tol, char const* what)
{
    ++c.compared;
    for (uint32_t e = 0; e < want.c.size(); ++e)
        if (!(fabsl(got.c[e].v - want.c[e].v) <= tol))
        {
            char b[200];
            snprintf(b, sizeof b, "element %u is %.17Lg, expected %.17Lg (tolerance %.2Lg)", e, got.c[e].v, want.c[e].v, tol);
            c.R.viol(c.cur + " [" + what + "] " + b);
            return false;
        }
    return true;
}

// Values: small integers, dyadics, generic reals, and occasional extremes.
inline double pick_value(ref::Rng& g, int kind)
{
    switch (kind)
    {
    case 0: return (double)g.range(-5, 5);
    case 1: return (double)g.range(-32, 32) / 8.0;
    case 2: return g.real(-2, 2);
    case 3: return g.chance(30) ? 0.0 : g.real(-10, 10);
    case 4: return g.real(-1, 1) * (g.chance(50) ? 1e3 : 1e-3);
    case 5: return g.real(0.25, 2);
    default: { // hostile bit patterns
        static const double h[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, DBL_MIN, -DBL_MIN, 4.9e-324, -4.9e-324, DBL_MAX, -DBL_MAX,
                                   FLT_MIN, 1.4e-45, FLT_MAX, -FLT_MAX, DBL_EPSILON, 1.0, -1.0, 1e308, 1e-308, 1e19, -1e19, 3e38};
        if (g.chance(70)) return h[g.below(sizeof h / sizeof *h)];
        uint64_t b = g.next();
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    }
}
// powers of high degree: no product of some of the factors may leave the range of V
template <class V> void tame_values(double* d, int n, int degree)
{
    double limit = sizeof(V) == 4 ? 100 : 900, m = 0;
    for (int i = 0; i < n; ++i)
        if (d[i] != 0) m = std::max(m, std::abs(std::log2(std::abs(d[i]))));
    if (m * degree <= limit) return;
    for (int i = 0; i < n; ++i)
        if (d[i] != 0) d[i] = (double)(V)std::copysign(std::exp2(std::log2(std::abs(d[i])) * limit / (m * degree)), d[i]);
}

// All values of one trial. Beyond the kinds above: everything on one extreme scale, every value on
// a scale of its own, and values next to one, two and a half.
template <class V> void fill_values(ref::Rng& g, double* d, int n, int trial)
{
    int kind  = trial % 9;
    g_extreme = kind == 6 || kind == 7;
    g_limit   = sizeof(V) == 4 ? 1e16L : 1e120L;
    int top   = sizeof(V) == 4 ? 5 : g.chance(50) ? 12 : 34;
    int k     = g.range(-top, top);
    for (int i = 0; i < n; ++i)
    {
        double x = kind < 6 ? pick_value(g, kind) : g.real(0.5, 5) * (g.chance(50) ? 1 : -1);
        if (kind == 6) x *= std::pow(10.0, k);
        if (kind == 7) x *= std::pow(10.0, g.range(-top / 2, top / 2));
        if (kind == 8) x = (g.chance(60) ? 1.0 : g.chance(50) ? 2.0 : 0.5) * (g.chance(70) ? 1 : -1) * (1 + g.real(-1, 1) * std::pow(10.0, -g.range(2, 9)));
        d[i] = (double)(V)x;
    }
}
inline uint64_t hash_doubles(double const* p, size_t n, uint64_t h) { return hash_bytes(p, n * sizeof(double), h); }
