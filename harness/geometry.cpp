// Monitor of the geometric meaning: joins, meets and motions against plain vector geometry.  args: seed n
#include "api.hpp"

using namespace gal;
static Ctx c;
using L = long double;
struct V3 { L x, y, z; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(L k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L len(V3 a) { return sqrtl(dot(a, a)); }
static V3 rodrigues(V3 v, V3 u, L th) { return cosl(th) * v + sinl(th) * cross(u, v) + (1 - cosl(th)) * dot(u, v) * u; }
template <class X> V3 v3(X const& p) { return {(L)p.x, (L)p.y, (L)p.z}; }

static bool near_(L a, L b, L tol, char const* what)
{
    ++c.compared;
    if (fabsl(a - b) <= tol) return true;
    char s[200];
    snprintf(s, sizeof s, " [%s] is %.15Lg, expected %.15Lg (tolerance %.1Lg)", what, a, b, tol);
    c.R.viol(c.cur + s);
    return false;
}
static bool near3(V3 a, V3 b, L tol, char const* what) { return near_(a.x, b.x, tol, what) && near_(a.y, b.y, tol, what) && near_(a.z, b.z, tol, what); }

template <class V>
struct Geo
{
    ref::Rng g;
    L eps = 40 * std::numeric_limits<V>::epsilon();
    char const* tn;
    Geo(uint64_t s, char const* t) : g(s), tn(t) {}

    V coord() { return (V)(g.chance(20) ? (double)g.range(-3, 3) : g.real(-4, 4)); }
    // quarter turns, tiny angles, many turns, and anything between
    V angle()
    {
        if (g.chance(20)) return (V)(M_PI / 2 * (double)g.range(-4, 4));
        if (g.chance(20)) return (V)(g.real(-1, 1) * std::pow(10.0, -g.range(0, 7)));
        if (g.chance(12)) return (V)g.real(-60, 60);
        return (V)g.real(-6.5, 6.5);
    }
    V length()
    {
        if (g.chance(8)) return (V)0;
        if (g.chance(20)) return (V)(g.real(-1, 1) * std::pow(10.0, -g.range(0, 7)));
        if (g.chance(12)) return (V)g.real(-60, 60);
        return (V)g.real(-4, 4);
    }
    vga::point<V> pt() { return vga::point<V>(coord(), coord(), coord()); }
    void cur(char const* what, std::initializer_list<V3> l)
    {
        c.cur = std::string(tn) + " " + what;
        uint64_t h = hash_bytes(what, strlen(what), sizeof(V));
        for (auto& v : l)
        {
            char b[120];
            snprintf(b, sizeof b, " (%.9Lg %.9Lg %.9Lg)", v.x, v.y, v.z);
            c.cur += b;
            double d[3] = {(double)v.x, (double)v.y, (double)v.z};
            h = hash_doubles(d, 3, h);
        }
        c.R.eval(h);
        c.R.count(what);
    }
    // a unit axis, rounded to V
    V3 axis()
    {
        V3 u;
        if (g.chance(30)) { int a = (int)g.below(3); int s = g.chance(50) ? 1 : -1; return {(L)(a == 0) * s, (L)(a == 1) * s, (L)(a == 2) * s}; }
        do u = {(L)g.real(-1, 1), (L)g.real(-1, 1), (L)g.real(-1, 1)}; while (len(u) < 0.2L);
        u = (1 / len(u)) * u;
        return {(L)(V)u.x, (L)(V)u.y, (L)(V)u.z};
    }

    void joins()
    {
        auto P = pt(), Q = pt(), R = pt(), S = pt();
        V3 p = v3(P), q = v3(Q), r = v3(R), s = v3(S);
        cur("join", {p, q, r, s});
        L sc = 1 + len(p) + len(q) + len(r) + len(s);
        pga::line<V> l = gal::pga::compute([](auto a, auto b) { return a & b; }, P, Q);
        // Plücker coordinates of the line: direction and moment
        V3 d{(L)l.dx, (L)l.dy, (L)l.dz}, m{(L)l.mx, (L)l.my, (L)l.mz};
        near3(d, p - q, eps * sc, "direction of the join of two points");
        near3(m, cross(p, p - q), eps * sc * sc, "moment of the join of two points");
        pga::plane<V> pl = gal::pga::compute([](auto a, auto b, auto c) { return a & b & c; }, P, Q, R);
        V3 n{(L)pl.x, (L)pl.y, (L)pl.z};
        for (V3 x : {p, q, r}) near_(dot(n, x) + pl.d, 0, eps * sc * sc * sc, "plane through three points contains them");
        near3(n, -1.0L * cross(q - p, r - p), eps * sc * sc, "normal of the plane through three points");
        pga::plane<V> pl2 = gal::pga::compute([](auto l, auto c) { return l & c; }, l, R);
        near3({(L)pl2.x, (L)pl2.y, (L)pl2.z}, n, eps * sc * sc * 4, "plane through a line and a point");
        // volume: incidence of a point with a plane
        auto vol = gal::pga::compute([](auto a, auto b, auto c, auto d) { return a & b & c & d; }, P, Q, R, S);
        near_(fabsl(vol.size() ? (L)vol[0] : 0), fabsl(dot(cross(q - p, r - p), s - p)), eps * sc * sc * sc, "join of four points is their volume");
        // a point of the line lies on it
        V t = (V)g.real(-2, 2);
        V3 x = p + (L)t * (q - p);
        vga::point<V> X((V)x.x, (V)x.y, (V)x.z);
        pga::plane<V> on = gal::pga::compute([](auto l, auto c) { return l & c; }, l, X);
        for (int i = 0; i < 4; ++i) near_(on[i], 0, eps * sc * sc * sc * 4, "join of a line with one of its points");
    }

    void meets()
    {
        V3 n[3];
        L d[3];
        pga::plane<V>* pl[3];
        V raw[3][4];
        for (int i = 0; i < 3; ++i)
        {
            for (auto& x : raw[i]) x = coord();
            n[i] = {(L)raw[i][1], (L)raw[i][2], (L)raw[i][3]};
            d[i] = raw[i][0];
        }
        pga::plane<V> A(raw[0][0], raw[0][1], raw[0][2], raw[0][3]), B(raw[1][0], raw[1][1], raw[1][2], raw[1][3]), C(raw[2][0], raw[2][1], raw[2][2], raw[2][3]);
        (void)pl;
        L det = dot(n[0], cross(n[1], n[2])), sc = len(n[0]) * len(n[1]) * len(n[2]);
        L ds  = 1 + fabsl(d[0]) + fabsl(d[1]) + fabsl(d[2]);
        cur("meet", {n[0], n[1], n[2], {d[0], d[1], d[2]}});
        pga::line<V> l = gal::pga::compute([](auto a, auto b) { return a ^ b; }, A, B);
        V3 dir{(L)l.dx, (L)l.dy, (L)l.dz}, mo{(L)l.mx, (L)l.my, (L)l.mz};
        L nb = (1 + len(n[0])) * (1 + len(n[1])) * ds * ds;
        near3(dir, -1.0L * cross(n[0], n[1]), eps * nb, "direction of the meet of two planes");
        near3(mo, d[1] * n[0] - d[0] * n[1] /* x cross direction for any x on both planes */, eps * nb, "moment of the meet of two planes");
        if (fabsl(det) > 0.05L * sc && sc > 0.05L)
        {
            V3 x = (-1 / det) * (d[0] * cross(n[1], n[2]) + d[1] * cross(n[2], n[0]) + d[2] * cross(n[0], n[1]));
            L tol = eps * (1 + len(x)) * (sc / fabsl(det)) * (sc / fabsl(det)) * 20 * ds;
            vga::point<V> p = gal::pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, A, B, C);
            near3(v3(p), x, tol, "meet of three planes");
            vga::point<V> q = gal::pga::compute([](auto l, auto c) { return l ^ c; }, l, C);
            near3(v3(q), x, tol, "meet of a line and a plane");
            // the same planes with other weights, in a larger or smaller space
            int e[4];
            for (int& k : e) k = (int)g.range(-18, 18);
            auto f = [&](int i, int j) { return (V)std::ldexp((double)raw[i][j], e[i] + (j ? 0 : e[3])); };
            pga::plane<V> a(f(0, 0), f(0, 1), f(0, 2), f(0, 3)), b(f(1, 0), f(1, 1), f(1, 2), f(1, 3)), cc(f(2, 0), f(2, 1), f(2, 2), f(2, 3));
            vga::point<V> p2 = gal::pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, cc);
            near3(ldexpl(1, -e[3]) * v3(p2), x, tol, "meet of three weighted planes");
            pga::point<V> p3 = gal::pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, cc);
            L w3 = (L)p3[3] * ldexpl(1, -e[0] - e[1] - e[2]);
            near_(w3, det, eps * sc * 8, "weight of the meet of three planes");
            c.R.count("weighted_meet");
        }
        // parallel planes meet at infinity
        V k = (V)g.range(-3, 3);
        pga::plane<V> A2(raw[1][0], (V)(2 * raw[0][1]), (V)(2 * raw[0][2]), (V)(2 * raw[0][3]));
        pga::line<V> far_ = gal::pga::compute([](auto a, auto b) { return a ^ b; }, A, A2);
        near3({(L)far_.dx, (L)far_.dy, (L)far_.dz}, {0, 0, 0}, eps * nb, "parallel planes meet in an ideal line");
        V3 ideal = d[1] * n[0] - d[0] * (2.0L * n[0]);
        near3({(L)far_.mx, (L)far_.my, (L)far_.mz}, ideal, eps * nb * 4, "moment of the ideal meet");
        auto w = gal::pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, A, A2, C);
        near_(w.template select<0b1110>(), 0, eps * nb * 4 * ds * (1 + len(n[2])), "parallel planes meet a third at infinity");
        (void)k;
    }

    void planar()
    {
        V a[6];
        for (auto& x : a) x = coord();
        cur("planar", {{(L)a[0], (L)a[1], (L)a[2]}, {(L)a[3], (L)a[4], (L)a[5]}});
        pga2::line<V> A(a[0], a[1], a[2]), B(a[3], a[4], a[5]);
        L det = (L)a[1] * a[5] - (L)a[2] * a[4];
        L sc  = hypotl(a[1], a[2]) * hypotl(a[4], a[5]);
        if (fabsl(det) > 0.05L * sc && sc > 0.05L)
        {
            L x = -((L)a[0] * a[5] - (L)a[3] * a[2]) / det, y = -((L)a[1] * a[3] - (L)a[4] * a[0]) / det;
            pga2::point<V> p = gal::pga2::compute([](auto l, auto m) { return l ^ m; }, A, B);
            L tol = eps * (1 + fabsl(x) + fabsl(y)) * (sc / fabsl(det)) * 20 * (1 + 8 / sc);
            near_(p.x, x, tol, "meet of two lines x");
            near_(p.y, y, tol, "meet of two lines y");
            int e[3];
            for (int& k : e) k = (int)g.range(-20, 20);
            auto f = [&](int i) { return (V)std::ldexp((double)a[i], e[i / 3] + (i % 3 ? 0 : e[2])); };
            pga2::line<V> A3(f(0), f(1), f(2)), B3(f(3), f(4), f(5));
            pga2::point<V> p3 = gal::pga2::compute([](auto l, auto m) { return l ^ m; }, A3, B3);
            near_(ldexpl(p3.x, -e[2]), x, tol, "meet of two weighted lines x");
            near_(ldexpl(p3.y, -e[2]), y, tol, "meet of two weighted lines y");
        }
        pga2::point<V> P(a[0], a[1]), Q(a[2], a[3]);
        pga2::line<V> j = gal::pga2::compute([](auto l, auto m) { return l & m; }, P, Q);
        near_((L)j.x * a[0] + (L)j.y * a[1] + j.d, 0, eps * 200, "line through two points contains the first");
        near_((L)j.x * a[2] + (L)j.y * a[3] + j.d, 0, eps * 200, "line through two points contains the second");
        near_(j.x, (L)a[1] - a[3], eps * 20, "normal of the line through two points");
        near_(j.y, (L)a[2] - a[0], eps * 20, "normal of the line through two points");
        pga2::line<V> A2(a[3], (V)(-2 * a[1]), (V)(-2 * a[2]));
        auto w = gal::pga2::compute([](auto l, auto m) { return l ^ m; }, A, A2);
        near_(w.template select<0b110>(), 0, eps * 400, "parallel lines meet at infinity");
        // motions of the plane written as general entities
        L th = g.real(-3, 3);
        entity<pga2::pga2_algebra, V, 0, 6> R{{(V)cosl(th / 2), (V)sinl(th / 2)}};
        L ch = (L)R[0] * R[0] - (L)R[1] * R[1], sh = 2 * (L)R[0] * R[1];
        pga2::point<V> rp = gal::pga2::compute([](auto p, auto r) { return p % r; }, P, R);
        near_(rp.x, ch * a[0] + sh * a[1], eps * 60, "rotated point x");
        near_(rp.y, -sh * a[0] + ch * a[1], eps * 60, "rotated point y");
        entity<pga2::pga2_algebra, V, 0, 3, 5> T{{V(1), (V)(a[4] / 2), (V)(a[5] / 2)}};
        pga2::point<V> tp = gal::pga2::compute([](auto p, auto r) { return p % r; }, P, T);
        near_(tp.x, (L)a[0] - a[4], eps * 60, "translated point x");
        near_(tp.y, (L)a[1] - a[5], eps * 60, "translated point y");
    }

    void vectors()
    {
        V a[9];
        for (auto& x : a) x = coord();
        V3 u{(L)a[0], (L)a[1], (L)a[2]}, v{(L)a[3], (L)a[4], (L)a[5]}, w{(L)a[6], (L)a[7], (L)a[8]};
        cur("vectors", {u, v, w});
        vga::vector<V> A(a[0], a[1], a[2]), B(a[3], a[4], a[5]), C(a[6], a[7], a[8]);
        L t = eps * 400;
        auto dp = gal::vga::compute([](auto x, auto y) { return x | y; }, A, B);
        near_(dp.select(elem_t(0)) ? *dp.select(elem_t(0)) : 0, dot(u, v), t, "dot product");
        auto tv = gal::vga::compute([](auto x, auto y, auto z) { return x ^ y ^ z; }, A, B, C);
        near_(tv.size() ? (L)tv[0] : 0, dot(u, cross(v, w)), t * 10, "triple wedge is the determinant");
        vga::vector<V> cr = gal::vga::compute([](auto x, auto y) { return !(x ^ y); }, A, B);
        near3(v3(cr), cross(u, v), t, "dual of the wedge is the cross product");
        // rotations
        V3 ax = axis();
        V th  = angle();
        vga::rotor<V> R(th, (V)ax.x, (V)ax.y, (V)ax.z);
        vga::vector<V> rv = gal::vga::compute([](auto x, auto r) { return x % r; }, A, R);
        near3(v3(rv), rodrigues(u, ax, th), t, "rotated vector");
        V th2 = angle();
        V3 ax2 = axis();
        vga::rotor<V> R2(th2, (V)ax2.x, (V)ax2.y, (V)ax2.z);
        vga::vector<V> rr = gal::vga::compute([](auto x, auto r, auto s) { return x % (s * r); }, A, R, R2);
        near3(v3(rr), rodrigues(rodrigues(u, ax, th), ax2, th2), t, "composed rotation");
        auto ab = gal::vga::compute([](auto x, auto y, auto r) { return (x % r) | (y % r); }, A, B, R);
        near_(ab.select(elem_t(0)) ? *ab.select(elem_t(0)) : 0, dot(u, v), t * 4, "rotation preserves the dot product");
    }

    void motions()
    {
        auto P = pt(), Q = pt(), S = pt();
        V3 p = v3(P), q = v3(Q), s = v3(S);
        V3 a1 = axis(), a2 = axis();
        V th = angle(), dist = length();
        pga::rotor<V> R(th, (V)a1.x, (V)a1.y, (V)a1.z);
        pga::translator<V> T(dist, (V)a2.x, (V)a2.y, (V)a2.z);
        cur("motion", {p, q, s, a1, a2, {(L)th, (L)dist, 0}});
        L t = eps * 600 * (1 + fabsl(dist) / 8) * (1 + fabsl(dist) / 8);
        auto rot = [&](V3 x) { return rodrigues(x, a1, -(L)th); };
        auto mov = [&](V3 x) { return x + (L)dist * a2; };
        vga::point<V> pr = gal::pga::compute([](auto p, auto r) { return p % r; }, P, R);
        near3(v3(pr), rot(p), t, "rotated point");
        vga::point<V> ptr = gal::pga::compute([](auto p, auto r) { return p % r; }, P, T);
        near3(v3(ptr), mov(p), t, "translated point");
        // motor = translator * rotor
        pga::motor<V> Mo = gal::pga::compute([](auto t, auto r) { return t * r; }, T, R);
        auto mv = [&](V3 x) { return mov(rot(x)); };
        vga::point<V> pm = gal::pga::compute([](auto p, auto m) { return p % m; }, P, Mo);
        vga::point<V> qm = gal::pga::compute([](auto p, auto m) { return p % m; }, Q, Mo);
        vga::point<V> sm = gal::pga::compute([](auto p, auto m) { return p % m; }, S, Mo);
        near3(v3(pm), mv(p), t, "moved point");
        near3(v3(qm), mv(q), t, "moved point");
        near_(len(v3(pm) - v3(qm)), len(p - q), t * 2, "motion preserves distance");
        vga::point<V> pm2 = gal::pga::compute([](auto p, auto t, auto r) { return (p % r) % t; }, P, T, R);
        near3(v3(pm2), v3(pm), t * 2, "motor is the composition");
        // the weight of the motor does not matter; a larger or smaller space moves alike
        int e = (int)g.range(-18, 18), h = (int)g.range(-18, 18);
        auto z = [](V x, int k) { return (V)std::ldexp((double)x, k); };
        pga::motor<V> Mw(z(Mo[0], e), z(Mo[1], e), z(Mo[2], e), z(Mo[3], e), z(Mo[4], e), z(Mo[5], e), z(Mo[6], e), z(Mo[7], e));
        vga::point<V> pw = gal::pga::compute([](auto p, auto m) { return p % m; }, P, Mw);
        near3(v3(pw), mv(p), t * 2, "point moved by a weighted motor");
        vga::point<V> Ph(z(P.x, h), z(P.y, h), z(P.z, h));
        pga::translator<V> Th(z(dist, h), (V)a2.x, (V)a2.y, (V)a2.z);
        vga::point<V> ph = gal::pga::compute([](auto p, auto t, auto r) { return p % (t * r); }, Ph, Th, R);
        near3(ldexpl(1, -h) * v3(ph), mv(p), t * 2, "point moved in a scaled space");
        pga::line<V> lh = gal::pga::compute([](auto a, auto b) { return a & b; }, Ph, vga::point<V>(z(Q.x, h), z(Q.y, h), z(Q.z, h)));
        near3(ldexpl(1, -h) * V3{(L)lh.dx, (L)lh.dy, (L)lh.dz}, p - q, t, "direction of a join in a scaled space");
        near3(ldexpl(1, -2 * h) * V3{(L)lh.mx, (L)lh.my, (L)lh.mz}, cross(p, p - q), t * 10, "moment of a join in a scaled space");
        c.R.count("scaled_space");
        // lines and planes move with their points
        pga::line<V> l1 = gal::pga::compute([](auto a, auto b, auto m) { return (a & b) % m; }, P, Q, Mo);
        V3 d = mv(p) - mv(q), mo = cross(mv(p), d);
        near3({(L)l1.dx, (L)l1.dy, (L)l1.dz}, d, t * 4, "direction of a moved line");
        near3({(L)l1.mx, (L)l1.my, (L)l1.mz}, mo, t * 40, "moment of a moved line");
        pga::line<V> l0 = gal::pga::compute([](auto a, auto b) { return a & b; }, P, Q);
        pga::line<V> l2 = gal::pga::compute([](auto l, auto r) { return l % r; }, l0, R);
        d = rot(p) - rot(q), mo = cross(rot(p), d);
        near3({(L)l2.dx, (L)l2.dy, (L)l2.dz}, d, t * 4, "direction of a rotated line");
        near3({(L)l2.mx, (L)l2.my, (L)l2.mz}, mo, t * 40, "moment of a rotated line");
        pga::plane<V> pl((V)-(V)dot(a1, p), (V)a1.x, (V)a1.y, (V)a1.z); // plane through p with normal a1
        pga::plane<V> plm = gal::pga::compute([](auto l, auto m) { return l % m; }, pl, Mo);
        V3 n{(L)plm.x, (L)plm.y, (L)plm.z};
        near3(n, rot(a1), t * 2, "normal of a moved plane");
        near_(dot(n, mv(p)) + plm.d, 0, t * 10, "a moved plane contains the moved point");
        // reflection in a plane
        vga::point<V> rf = gal::pga::compute([](auto x, auto m) { return x % m; }, Q, pl);
        V3 want = q - 2 * (dot(a1, q) - dot(a1, p)) * a1;
        near3(v3(rf), want, t * 4, "reflected point");
        // screw about a line: exponential of half the angle times the line
        L half = g.real(0.2, 1.4), pitch = g.chance(40) ? 0.0L : (L)g.real(-2, 2);
        V3 dd = half * a1, mm = half * cross(p, a1) + pitch * a1; // axis through p along a1
        pga::line<V> ax((V)dd.x, (V)dd.y, (V)dd.z, (V)mm.x, (V)mm.y, (V)mm.z);
        pga::motor<V> E = gal::pga::compute([](auto l) { return gal::exp(l); }, ax);
        vga::point<V> eq = gal::pga::compute([](auto x, auto m) { return x % m; }, Q, E);
        V3 w2 = p + rodrigues(q - p, a1, 2 * half) + screw * pitch * a1;
        near3(v3(eq), w2, t * 10, "screw motion about a line");
    }
    L screw = 2;
    void run(uint64_t n)
    {
        for (uint64_t i = 0; i < n; ++i) { joins(); meets(); planar(); vectors(); motions(); }
    }
};

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, n = argc > 2 ? strtoull(argv[2], 0, 10) : 2000;
    Geo<double> a(seed * 2, "double");
    a.run(n);
    Geo<float> b(seed * 2 + 1, "float");
    b.run(n);
    c.R.count("compared", c.compared);
    return c.R.finish();
}
