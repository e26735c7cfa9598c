#pragma once
// Reference geometric algebra, written independently of the library under test.
// Everything is derived from one definition: a basis blade is a sorted list of generators, the
// geometric product concatenates two lists, bubble-sorts them (each swap flips the sign) and
// contracts equal neighbours with the square of the generator. All other products are grade
// projections of that product.
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
// ---------------------------------------------------------------- exact field Z/(2^61-1)
struct Fp
{
    static constexpr uint64_t P = (uint64_t(1) << 61) - 1;
    uint64_t v = 0;
    Fp() = default;
    Fp(long long x)
    {
        long long m = x % (long long)P;
        v           = m < 0 ? (uint64_t)(m + (long long)P) : (uint64_t)m;
    }
    static Fp raw(uint64_t x)
    {
        Fp f;
        f.v = x % P;
        return f;
    }
    friend Fp operator+(Fp a, Fp b) { return raw(a.v + b.v); }
    friend Fp operator-(Fp a, Fp b) { return raw(a.v + (P - b.v)); }
    friend Fp operator*(Fp a, Fp b)
    {
        return raw((uint64_t)(((unsigned __int128)a.v * b.v) % P));
    }
    friend bool operator==(Fp a, Fp b) { return a.v == b.v; }
    friend bool operator!=(Fp a, Fp b) { return a.v != b.v; }
    Fp pow(uint64_t e) const
    {
        Fp r(1), b = *this;
        for (; e; e >>= 1, b = b * b)
            if (e & 1) r = r * b;
        return r;
    }
    Fp inv() const { return pow(P - 2); }
    bool zero() const { return v == 0; }
};
inline Fp operator/(Fp a, Fp b) { return a * b.inv(); }

// ---------------------------------------------------------------- deterministic RNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed + 0x1234567)
    {
        // scramble so that neighbouring seeds do not give shifted copies of one stream
        s = next() * 0xD6E8FEB86659FD93ull;
        s ^= next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long long range(long long lo, long long hi) { return lo + (long long)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(int percent) { return below(100) < (uint64_t)percent; }
};

inline int grade_of(uint32_t e)
{
    int g = 0;
    for (; e; e >>= 1) g += (int)(e & 1);
    return g;
}

// ---------------------------------------------------------------- signature
struct Sig
{
    int dim = 0;
    int sq[10] = {};
    // The library orders generators degenerate, positive, negative.
    static Sig make(int p, int v, int r)
    {
        Sig s;
        for (int i = 0; i < r; ++i) s.sq[s.dim++] = 0;
        for (int i = 0; i < p; ++i) s.sq[s.dim++] = 1;
        for (int i = 0; i < v; ++i) s.sq[s.dim++] = -1;
        return s;
    }
    uint32_t size() const { return 1u << dim; }
};

struct BP
{
    uint32_t e;
    int s; // 0 => the product vanishes
};

inline BP blade_gp(Sig const& sig, uint32_t a, uint32_t b)
{
    int l[32];
    int n = 0;
    for (int i = 0; i < sig.dim; ++i)
        if (a & (1u << i)) l[n++] = i;
    for (int i = 0; i < sig.dim; ++i)
        if (b & (1u << i)) l[n++] = i;
    int s        = 1;
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (int i = 0; i + 1 < n; ++i)
            if (l[i] > l[i + 1])
            {
                int t    = l[i];
                l[i]     = l[i + 1];
                l[i + 1] = t;
                s        = -s;
                changed  = true;
            }
    }
    uint32_t e = 0;
    for (int i = 0; i < n;)
    {
        if (i + 1 < n && l[i] == l[i + 1])
        {
            s *= sig.sq[l[i]];
            i += 2;
        }
        else
        {
            e |= 1u << l[i];
            ++i;
        }
    }
    return {s ? e : 0, s};
}

enum class Prod { gp, ep, lc, ip };

inline BP blade_prod(Sig const& sig, Prod k, uint32_t a, uint32_t b)
{
    BP r = blade_gp(sig, a, b);
    if (r.s == 0) return r;
    int ga = grade_of(a), gb = grade_of(b), g = grade_of(r.e);
    bool keep = false;
    switch (k)
    {
    case Prod::gp: keep = true; break;
    case Prod::ep: keep = g == ga + gb; break;
    case Prod::lc: keep = gb >= ga && g == gb - ga; break;
    case Prod::ip: keep = ga > 0 && gb > 0 && g == (ga > gb ? ga - gb : gb - ga); break;
    }
    return keep ? r : BP{0, 0};
}

// orientation of the complement: e ^ comp(e) = sign * pseudoscalar
inline BP blade_dual(Sig const& sig, uint32_t a)
{
    uint32_t c = (sig.size() - 1) ^ a;
    Sig eu     = sig;
    for (int i = 0; i < eu.dim; ++i) eu.sq[i] = 1;
    return {c, blade_gp(eu, a, c).s};
}

struct Table
{
    Sig sig;
    std::vector<BP> t[4];
    explicit Table(Sig s) : sig(s)
    {
        for (int k = 0; k < 4; ++k)
        {
            t[k].resize((size_t)s.size() * s.size());
            for (uint32_t a = 0; a < s.size(); ++a)
                for (uint32_t b = 0; b < s.size(); ++b)
                    t[k][(size_t)a * s.size() + b] = blade_prod(s, (Prod)k, a, b);
        }
    }
};

// ---------------------------------------------------------------- dense multivector
template <class S>
struct MV
{
    Table const* T = nullptr;
    std::vector<S> c;
    MV() = default;
    explicit MV(Table const& t) : T(&t), c(t.sig.size(), S(0)) {}
    S& operator[](uint32_t i) { return c[i]; }
    S const& operator[](uint32_t i) const { return c[i]; }
};

template <class S>
MV<S> mul(Prod k, MV<S> const& a, MV<S> const& b)
{
    MV<S> o(*a.T);
    uint32_t n = a.T->sig.size();
    for (uint32_t i = 0; i < n; ++i)
        for (uint32_t j = 0; j < n; ++j)
        {
            BP const& p = a.T->t[(int)k][(size_t)i * n + j];
            if (p.s == 0) continue;
            S x = a.c[i] * b.c[j];
            if (p.s > 0)
                o.c[p.e] = o.c[p.e] + x;
            else
                o.c[p.e] = o.c[p.e] - x;
        }
    return o;
}
template <class S> MV<S> gp(MV<S> const& a, MV<S> const& b) { return mul(Prod::gp, a, b); }
template <class S> MV<S> ep(MV<S> const& a, MV<S> const& b) { return mul(Prod::ep, a, b); }
template <class S> MV<S> lc(MV<S> const& a, MV<S> const& b) { return mul(Prod::lc, a, b); }
template <class S> MV<S> ip(MV<S> const& a, MV<S> const& b) { return mul(Prod::ip, a, b); }
template <class S>
MV<S> add(MV<S> const& a, MV<S> const& b)
{
    MV<S> o = a;
    for (size_t i = 0; i < o.c.size(); ++i) o.c[i] = o.c[i] + b.c[i];
    return o;
}
template <class S>
MV<S> sub(MV<S> const& a, MV<S> const& b)
{
    MV<S> o = a;
    for (size_t i = 0; i < o.c.size(); ++i) o.c[i] = o.c[i] - b.c[i];
    return o;
}
template <class S>
MV<S> scl(S k, MV<S> const& a)
{
    MV<S> o = a;
    for (auto& x : o.c) x = k * x;
    return o;
}
template <class S> MV<S> neg(MV<S> const& a) { return scl(S(-1), a); }
template <class S>
MV<S> rev(MV<S> const& a)
{
    MV<S> o = a;
    for (uint32_t i = 0; i < o.c.size(); ++i)
    {
        int g = grade_of(i);
        // reversing a list of g generators takes g(g-1)/2 swaps
        int swaps = 0;
        for (int k = 0; k < g; ++k) swaps += k;
        if (swaps & 1) o.c[i] = S(-1) * o.c[i];
    }
    return o;
}
template <class S>
MV<S> dual(MV<S> const& a)
{
    MV<S> o(*a.T);
    for (uint32_t i = 0; i < a.c.size(); ++i)
    {
        BP p     = blade_dual(a.T->sig, i);
        o.c[p.e] = p.s > 0 ? a.c[i] : S(-1) * a.c[i];
    }
    return o;
}
template <class S> MV<S> reg(MV<S> const& a, MV<S> const& b) { return dual(ep(dual(a), dual(b))); }
template <class S>
MV<S> grade(MV<S> const& a, int g)
{
    MV<S> o = a;
    for (uint32_t i = 0; i < o.c.size(); ++i)
        if (grade_of(i) != g) o.c[i] = S(0);
    return o;
}
template <class S>
MV<S> scalar(Table const& t, S v)
{
    MV<S> o(t);
    o.c[0] = v;
    return o;
}
template <class S>
MV<S> blade(Table const& t, uint32_t e, S v)
{
    MV<S> o(t);
    o.c[e] = v;
    return o;
}
template <class S> MV<S> comp(MV<S> const& a, uint32_t e) { return scalar(*a.T, a.c[e]); }
template <class S> MV<S> sp(MV<S> const& a, MV<S> const& b) { return comp(gp(a, b), 0); }
template <class S> MV<S> sandwich(MV<S> const& a, MV<S> const& b) { return gp(gp(b, a), rev(b)); }

// ---------------------------------------------------------------- null basis (CGA)
// The last two generators are read as no, ni outside and as ep, en (ep^2=1, en^2=-1) inside:
// no = (ep+en)/2, ni = en-ep  <=>  ep = no - ni/2, en = no + ni/2. no^ni = ep^en.
template <class S>
MV<S> null_to_natural(MV<S> const& a, S half)
{
    MV<S> o(*a.T);
    uint32_t no = 1u << (a.T->sig.dim - 2), ni = 1u << (a.T->sig.dim - 1);
    for (uint32_t i = 0; i < a.c.size(); ++i)
    {
        bool o1 = i & no, i1 = i & ni;
        uint32_t base = i & ~(no | ni);
        if (o1 == i1)
            o.c[i] = o.c[i] + a.c[i];
        else if (o1)
        {
            o.c[base | no] = o.c[base | no] + half * a.c[i];
            o.c[base | ni] = o.c[base | ni] + half * a.c[i];
        }
        else
        {
            o.c[base | ni] = o.c[base | ni] + a.c[i];
            o.c[base | no] = o.c[base | no] - a.c[i];
        }
    }
    return o;
}
template <class S>
MV<S> natural_to_null(MV<S> const& a, S half)
{
    MV<S> o(*a.T);
    uint32_t no = 1u << (a.T->sig.dim - 2), ni = 1u << (a.T->sig.dim - 1);
    for (uint32_t i = 0; i < a.c.size(); ++i)
    {
        bool p = i & no, n = i & ni;
        uint32_t base = i & ~(no | ni);
        if (p == n)
            o.c[i] = o.c[i] + a.c[i];
        else if (p)
        {
            o.c[base | no] = o.c[base | no] + a.c[i];
            o.c[base | ni] = o.c[base | ni] - half * a.c[i];
        }
        else
        {
            o.c[base | no] = o.c[base | no] + a.c[i];
            o.c[base | ni] = o.c[base | ni] + half * a.c[i];
        }
    }
    return o;
}
} // namespace ref
