// Runtime expression monitor. Builds expressions by calling the library's own operators at run
// time, carries the value of every expression in exact modular arithmetic, and checks that
//   (a) the expression the library recorded          denotes that value   (mode build)
//   (b) the expression after subexpression extraction denotes that value   (mode reshape)
#include "ref.hpp"
#include "report.hpp"
#include <gal/vga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <cstring>
#include <sstream>

using namespace ref;
namespace gd = gal::detail;
using M = MV<Fp>;

static Report R;

static Fp fq(gal::rat q)
{
    return Fp(q.num) / Fp(q.den);
}
// uninterpreted scalar functions
static Fp uf(int op, Fp x)
{
    if (x.zero()) return op == 1 ? Fp(1) : Fp(0);
    uint64_t h = hash_mix(hash_mix(77, (uint64_t)op), x.v);
    return Fp::raw(h & ((uint64_t(1) << 61) - 1));
}
static const Fp PIV = Fp::raw(314159265358979ull * 1000003), EV = Fp::raw(271828182845904ull * 1000033);

struct Bad { std::string why; };

template <class A, size_t N>
struct Interp
{
    Table const& T;
    std::vector<M> const& leaves;
    std::vector<std::vector<M>> temps; // value per extracted subexpression
    bool div_zero = false;

    template <class RP>
    std::vector<M> run(RP const& e, size_t i, size_t l)
    {
        std::vector<M> st;
        auto pop = [&]() -> M {
            if (st.empty()) throw Bad{"stack underflow"};
            M m = st.back();
            st.pop_back();
            return m;
        };
        while (i < l)
        {
            auto const& n = e.nodes[i];
            size_t next   = i + 1;
            switch (n.o)
            {
            case gd::op_id:
                if (n.ex >= leaves.size()) throw Bad{"input index out of range"};
                st.push_back(leaves[n.ex]);
                break;
            case gd::op_cse:
                if (n.ex >= temps.size()) throw Bad{"reference to a temporary that is not yet computed"};
                st.push_back(temps[n.ex][0]);
                break;
            case gd::op_se: {
                if (i + 1 + n.ex > l) throw Bad{"subexpression length out of range"};
                auto sub = run(e, i + 1, i + 1 + n.ex);
                if (sub.size() != 1) throw Bad{"subexpression does not leave one value"};
                M v = sub[0];
                if (n.q.num != 0) v = scl(fq(n.q), v);
                st.push_back(v);
                next = i + 1 + n.ex;
                break;
            }
            case gd::op_noop: {
                M v = pop();
                temps.push_back({v});
                break;
            }
            case gd::op_rev: st.push_back(rev(pop())); break;
            case gd::op_pd: st.push_back(dual(pop())); break;
            case gd::op_sum: {
                M v(T);
                for (size_t k = 0; k < n.ex; ++k) v = add(v, pop());
                st.push_back(v);
                break;
            }
            case gd::op_ep: {
                if (n.ex == 0) throw Bad{"empty exterior product"};
                M v = pop();
                for (size_t k = 1; k < n.ex; ++k) v = ep(pop(), v);
                st.push_back(v);
                break;
            }
            case gd::op_gp: { M b = pop(), a = pop(); st.push_back(gp(a, b)); break; }
            case gd::op_lc: { M b = pop(), a = pop(); st.push_back(lc(a, b)); break; }
            case gd::op_sip: { M b = pop(), a = pop(); st.push_back(ip(a, b)); break; }
            case gd::op_comp: st.push_back(comp(pop(), (uint32_t)n.ex)); break;
            case gd::op_grd: st.push_back(grade(pop(), (int)n.ex)); break;
            case gd::op_div: {
                M b = pop(), a = pop();
                if (b[0].zero()) { div_zero = true; st.push_back(a); break; }
                st.push_back(scl(fq(n.q) / b[0], a));
                break;
            }
            case gd::op_sin: st.push_back(scalar(T, uf(0, fq(n.q) * pop()[0]))); break;
            case gd::op_cos: st.push_back(scalar(T, uf(1, fq(n.q) * pop()[0]))); break;
            case gd::op_tan: st.push_back(scalar(T, uf(2, fq(n.q) * pop()[0]))); break;
            case gd::op_sqrt: st.push_back(scalar(T, uf(3, fq(n.q) * pop()[0]))); break;
            case gd::c_zero: st.push_back(M(T)); break;
            case gd::c_pi: st.push_back(scalar(T, PIV)); break;
            case gd::c_e: st.push_back(scalar(T, EV)); break;
            default:
                if (n.o < gd::c_scalar || n.o - gd::c_scalar >= T.sig.size()) throw Bad{"unknown node"};
                st.push_back(blade(T, n.o - gd::c_scalar, Fp(1)));
            }
            i = next;
        }
        return st;
    }
};

template <class A>
struct Fuzz
{
    static constexpr gal::width_t N = 120;
    using X = gd::rpne<A, N>;
    struct Item
    {
        X x;
        M v;
        std::string s;
        bool is_scalar;
        int scales; // bits of rational growth used
        double mag; // bound of the integer coefficients: results beyond 32 bits are outside the library's range
    };
    Table T;
    Rng rng;
    std::vector<M> leaves;
    std::vector<Item> pool;
    char const* name;
    bool check_build, check_reshape, special;

    Fuzz(Sig s, uint64_t seed, char const* nm, bool b, bool r) : T(s), rng(seed), name(nm), check_build(b), check_reshape(r), special(true) {}

    template <gal::width_t S>
    static bool fit(gd::rpne<A, S> const& in, X& out)
    {
        if (in.count > N) return false;
        out       = X{};
        out.count = in.count;
        out.q     = in.q;
        for (gal::width_t i = 0; i != in.count; ++i) out.nodes[i] = in.nodes[i];
        return true;
    }

    void reset()
    {
        pool.clear();
        leaves.clear();
        int nl = 2 + (int)rng.below(3);
        uint32_t id = 0;
        for (int i = 0; i < nl; ++i)
        {
            Item it;
            M v(T);
            bool sc = rng.chance(35);
            for (uint32_t e = 0; e < T.sig.size(); ++e)
                if (!sc || e == 0) v[e] = Fp::raw(rng.next() >> 3);
            leaves.push_back(v);
            it.x            = X{};
            it.x.nodes[0]   = gd::node{gd::op_id, id, (gal::width_t)i};
            it.x.count      = 1;
            it.v            = v;
            it.s            = std::string(sc ? "s" : "m") + std::to_string(i);
            it.is_scalar    = sc;
            it.scales       = 0;
            it.mag          = 1;
            id += sc ? 1 : T.sig.size();
            pool.push_back(it);
        }
    }

    Item const& pick() { 
        size_t n = pool.size();
        if (n > 6 && rng.chance(55)) return pool[n - 1 - rng.below(6)];
        return pool[rng.below(n)];
    }
    Item const* pick_scalar()
    {
        for (int t = 0; t < 12; ++t)
        {
            Item const& i = pick();
            if (i.is_scalar) return &i;
        }
        return nullptr;
    }

    // one step; returns false when nothing was produced
    bool step(Item& o)
    {
        int op = (int)rng.below(special ? 26 : 19);
        Item a = pick(), b = pick();
        o.scales = a.scales + b.scales;
        if (o.scales > 5) return false;
        bool sc2    = a.is_scalar && b.is_scalar;
        auto bin    = [&](char const* f) { o.s = "(" + a.s + f + b.s + ")"; };
        bool fitted = false;
        o.mag       = op >= 3 && op <= 8 ? a.mag + b.mag : op == 14 ? a.mag * b.mag * b.mag : op <= 13 ? a.mag * b.mag : op == 21 ? 4 * a.mag * b.mag : 4 * a.mag;
        if (o.mag > 1e6) return false;
        switch (op)
        {
        case 0: case 1: case 2:
            bin("*"); o.v = gp(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x * b.x, o.x); break;
        case 3: case 4: case 5: case 6:
            bin("+"); o.v = add(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x + b.x, o.x); break;
        case 7: case 8:
            bin("-"); o.v = sub(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x - b.x, o.x); break;
        case 9: case 10:
            bin("^"); o.v = ep(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x ^ b.x, o.x); break;
        case 11:
            bin(">>"); o.v = lc(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x >> b.x, o.x); break;
        case 12:
            bin("|"); o.v = ip(a.v, b.v); o.is_scalar = sc2; fitted = fit(a.x | b.x, o.x); break;
        case 13:
            bin("&"); o.v = reg(a.v, b.v); o.is_scalar = false; fitted = fit(a.x & b.x, o.x); break;
        case 14:
            bin("%"); o.v = sandwich(a.v, b.v); o.is_scalar = sc2; o.scales += b.scales;
            if (o.scales > 5) return false;
            fitted = fit(a.x % b.x, o.x); break;
        case 15:
            o.mag = a.mag;
            o.s = "(~" + a.s + ")"; o.scales = a.scales; o.v = rev(a.v); o.is_scalar = a.is_scalar; fitted = fit(~a.x, o.x); break;
        case 16:
            o.mag = a.mag;
            o.s = "(!" + a.s + ")"; o.scales = a.scales; o.v = dual(a.v); o.is_scalar = false; fitted = fit(!a.x, o.x); break;
        case 17: {
            int k = (int)rng.range(-4, 4);
            o.scales = a.scales + (k > 1 || k < -1);
            o.s = "(" + std::to_string(k) + "*" + a.s + ")"; o.v = scl(Fp(k), a.v); o.is_scalar = a.is_scalar; fitted = fit(k * a.x, o.x); break;
        }
        case 18: {
            if (rng.chance(40)) { o.s = "(-" + a.s + ")"; o.scales = a.scales; o.v = neg(a.v); o.is_scalar = a.is_scalar; fitted = fit(-a.x, o.x); break; }
            int k = (int)rng.range(1, 3) * (rng.chance(40) ? -1 : 1);
            o.scales = a.scales + 1;
            o.s = "(" + a.s + "/" + std::to_string(k) + ")"; o.v = scl(Fp(1) / Fp(k), a.v); o.is_scalar = a.is_scalar; fitted = fit(a.x / k, o.x); break;
        }
        case 19: {
            o.mag = a.mag;
            uint32_t e = (uint32_t)rng.below(T.sig.size());
            o.scales = a.scales;
            o.s = a.s + "[" + std::to_string(e) + "]"; o.v = comp(a.v, e); o.is_scalar = true; fitted = fit(a.x[(gal::elem_t)e], o.x); break;
        }
        case 20: {
            o.mag = a.mag;
            int g = (int)rng.below(T.sig.dim + 1);
            o.scales = a.scales;
            o.s = a.s + "<" + std::to_string(g) + ">"; o.v = grade(a.v, g); o.is_scalar = g == 0; fitted = fit(a.x.select_grade((gal::elem_t)g), o.x); break;
        }
        case 21: {
            Item const* s = pick_scalar();
            if (!s || s->v[0].zero() || s->x.count == 0 || s->x.q.is_zero()) return false;
            Item d = *s;
            o.scales = a.scales + d.scales;
            o.mag    = 4 * a.mag * d.mag;
            if (o.scales > 5 || o.mag > 1e6) return false;
            if (rng.chance(25))
            {
                int k = (int)rng.range(-3, 3);
                o.scales = d.scales + 1;
                o.s = "(" + std::to_string(k) + "/" + d.s + ")"; o.v = scalar(T, Fp(k) / d.v[0]); o.is_scalar = true; fitted = fit(k / d.x, o.x);
            }
            else
            {
                o.s = "(" + a.s + "/" + d.s + ")"; o.v = scl(Fp(1) / d.v[0], a.v); o.is_scalar = a.is_scalar; fitted = fit(a.x / d.x, o.x);
            }
            break;
        }
        case 22: case 23: {
            Item const* s = pick_scalar();
            if (!s) return false;
            Item d = *s;
            o.mag = d.mag;
            int f = (int)rng.below(4);
            static char const* fn[] = {"sin", "cos", "tan", "sqrt"};
            o.scales = d.scales;
            o.s = std::string(fn[f]) + "(" + d.s + ")"; o.v = scalar(T, uf(f, d.v[0])); o.is_scalar = true;
            switch (f)
            {
            case 0: fitted = fit(sin(d.x), o.x); break;
            case 1: fitted = fit(cos(d.x), o.x); break;
            case 2: fitted = fit(tan(d.x), o.x); break;
            case 3: fitted = fit(sqrt(d.x), o.x); break;
            }
            break;
        }
        case 24: {
            int k = (int)rng.range(-3, 3), w = (int)rng.below(4);
            o.scales = a.scales;
            o.is_scalar = a.is_scalar;
            std::string ks = std::to_string(k);
            M km = scalar(T, Fp(k));
            switch (w)
            {
            case 0: o.s = "(" + ks + "+" + a.s + ")"; o.v = add(km, a.v); fitted = fit(k + a.x, o.x); break;
            case 1: o.s = "(" + a.s + "+" + ks + ")"; o.v = add(km, a.v); fitted = fit(a.x + k, o.x); break;
            case 2: o.s = "(" + ks + "-" + a.s + ")"; o.v = sub(km, a.v); fitted = fit(k - a.x, o.x); break;
            case 3: o.s = "(" + a.s + "-" + ks + ")"; o.v = sub(a.v, km); fitted = fit(a.x - k, o.x); break;
            }
            break;
        }
        case 25: {
            int w = (int)rng.below(5);
            o.scales = a.scales;
            o.is_scalar = a.is_scalar;
            switch (w)
            {
            case 0: o.s = "(PI*" + a.s + ")"; o.v = scl(PIV, a.v); fitted = fit(gal::PI * a.x, o.x); break;
            case 1: o.s = "(" + a.s + "*E)"; o.v = scl(EV, a.v); fitted = fit(a.x * gal::E, o.x); break;
            case 2: o.s = "(" + a.s + "/PI)"; o.v = scl(Fp(1) / PIV, a.v); fitted = fit(a.x / gal::PI, o.x); break;
            case 3: o.s = "(" + a.s + "/(2*E))"; o.scales += 1; o.v = scl(Fp(1) / (Fp(2) * EV), a.v); fitted = fit(a.x / gal::operator*(2, gal::E), o.x); break;
            case 4: {
                uint32_t e = (uint32_t)rng.below(T.sig.size());
                X l{};
                uint32_t c = gd::c_scalar + e;
                l.nodes[0] = gd::node{c, c};
                l.count    = 1;
                o.is_scalar = a.is_scalar && e == 0;
                o.s = "(" + a.s + "*1_b" + std::to_string(e) + ")"; o.v = gp(a.v, blade(T, e, Fp(1))); fitted = fit(a.x * l, o.x);
                break;
            }
            }
            break;
        }
        }
        return fitted && o.s.size() < 4000;
    }

    static std::string dump(M const& m)
    {
        std::ostringstream s;
        for (size_t i = 0; i < m.c.size(); ++i)
            if (!m.c[i].zero()) s << i << ":" << m.c[i].v << " ";
        return s.str();
    }

    template <class RP>
    void check(RP const& x, M const& want, std::string const& text, char const* stage, uint64_t iter)
    {
        Interp<A, N> in{T, leaves, {}};
        try
        {
            auto st = in.run(x, 0, x.count);
            if (in.div_zero) { R.count("skipped_div_by_zero"); return; }
            M got(T);
            if (x.count == 0) {}
            else if (st.size() != 1) throw Bad{"expression leaves " + std::to_string(st.size()) + " values"};
            else got = scl(fq(x.q), st[0]);
            R.count(std::string("temps_") + stage, in.temps.size());
            if (!in.temps.empty()) R.count(std::string("expressions_with_temps_") + stage);
            if (got.c != want.c)
                R.viol(std::string(name) + " iter=" + std::to_string(iter) + " " + stage + " value differs for " + text);
        }
        catch (Bad const& b)
        {
            R.viol(std::string(name) + " iter=" + std::to_string(iter) + " " + stage + " malformed (" + b.why + ") for " + text);
        }
    }

    void run(uint64_t iters)
    {
        reset();
        for (uint64_t i = 0; i < iters; ++i)
        {
            if (pool.size() > 24 || rng.chance(2)) reset();
            Item o;
            if (!step(o)) continue;
            bool big_den = false;
            auto chk = [&](gal::rat q) { if (q.den >= 1024 || q.den <= -1024) big_den = true; };
            chk(o.x.q);
            uint64_t h = 99;
            for (gal::width_t k = 0; k != o.x.count; ++k)
            {
                auto const& n = o.x.nodes[k];
                if (n.o != gd::op_sum && n.o != gd::op_ep) chk(n.q);
                h = hash_mix(h, n.o);
                h = hash_mix(h, n.ex);
                h = hash_mix(h, n.checksum);
                if (n.o == gd::op_se) h = hash_mix(h, (uint64_t)(uint32_t)n.q.num * 7919 + (uint32_t)n.q.den);
            }
            h = hash_mix(h, (uint64_t)(uint32_t)o.x.q.num * 31 + (uint32_t)o.x.q.den);
            if (big_den) continue; // rationals this large may be rounded by design
            R.eval(h);
            R.count(std::string("nodes"), o.x.count);
            if (check_build) check(o.x, o.v, o.s, "recorded", i);
            if (check_reshape)
            {
                auto r = gd::rpn_reshape(o.x);
                check(r, o.v, o.s, "reshaped", i);
                if (r.count != o.x.count) R.count("reshape_changed_length");
            }
            if (o.x.count < 60) pool.push_back(o);
        }
    }

    // multiple results: concatenation, then reshape, then per-result values in order
    void run_multi(uint64_t iters)
    {
        for (uint64_t i = 0; i < iters; ++i)
        {
            reset();
            for (int k = 0; k < 10; ++k) { Item o; if (step(o) && o.x.count < 30) pool.push_back(o); }
            int nr = 2 + (int)rng.below(3);
            gd::rpne<A, 4 * N + 4> cat{};
            std::vector<M> want;
            std::string text;
            for (int k = 0; k < nr; ++k)
            {
                Item const& it = pick();
                if (it.x.q.den >= 1024) { want.clear(); break; }
                cat.append_as_se(it.x);
                want.push_back(it.v);
                text += it.s + " ; ";
            }
            if (want.empty()) continue;
            bool big_den = false;
            for (gal::width_t k = 0; k != cat.count; ++k)
            {
                auto const& n = cat.nodes[k];
                if (n.o != gd::op_sum && n.o != gd::op_ep && (n.q.den >= 1024 || n.q.den <= -1024)) big_den = true;
            }
            if (big_den) continue;
            auto r = gd::rpn_reshape(cat);
            Interp<A, N> in{T, leaves, {}};
            try
            {
                auto st = in.run(r, 0, r.count);
                if (in.div_zero) continue;
                R.eval(hash_mix(hash_bytes(text.data(), text.size()), 5));
                R.count("multi_results");
                if (st.size() != want.size()) throw Bad{"wrong number of results"};
                for (size_t k = 0; k < want.size(); ++k)
                    if (st[k].c != want[k].c)
                        R.viol(std::string(name) + " iter=" + std::to_string(i) + " multi result " + std::to_string(k) + " differs for " + text);
            }
            catch (Bad const& b)
            {
                R.viol(std::string(name) + " iter=" + std::to_string(i) + " multi malformed (" + b.why + ") for " + text);
            }
        }
    }
};

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "both";
    uint64_t seed    = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    uint64_t iters   = argc > 3 ? strtoull(argv[3], 0, 10) : 20000;
    bool b = mode == "build" || mode == "both", r = mode == "reshape" || mode == "both", m = mode == "multi" || mode == "both";
    if (b || r)
    {
        Fuzz<gal::vga::vga_algebra> v(Sig::make(3, 0, 0), seed * 3 + 1, "vga", b, r);
        v.run(iters);
        Fuzz<gal::pga2::pga2_algebra> p2(Sig::make(2, 0, 1), seed * 3 + 2, "pga2", b, r);
        p2.run(iters);
        Fuzz<gal::pga::pga_algebra> p(Sig::make(3, 0, 1), seed * 3 + 3, "pga", b, r);
        p.run(iters / 2);
    }
    if (m)
    {
        Fuzz<gal::vga::vga_algebra> v(Sig::make(3, 0, 0), seed * 5 + 1, "vga", b, r);
        v.run_multi(iters / 4);
    }
    return R.finish();
}
