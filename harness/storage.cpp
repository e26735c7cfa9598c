// Monitor of entity storage: indexing, iteration, selection, names and printing.  args: seed n
#include "api.hpp"
#include "masks.hpp"

using namespace gal;
static Ctx c;
static bool hostile;

template <class V> V value(ref::Rng& g)
{
    double d = pick_value(g, hostile && g.chance(60) ? 6 : (int)g.below(6));
    if (sizeof(V) == 4 && d == d && std::abs(d) > FLT_MAX && std::isfinite(d)) d = d > 0 ? FLT_MAX : -FLT_MAX;
    return (V)d;
}
template <class V> bool same(V a, V b) { return memcmp(&a, &b, sizeof(V)) == 0 || (a != a && b != b); }
static void bad(char const* what) { c.R.viol(c.cur + " [" + what + "]"); }
#define CHECK(cond, what) do { ++c.compared; if (!(cond)) { bad(what); return; } } while (0)

template <class En, class V, uint32_t... S>
void selects(En const& e, std::vector<V> const& coef)
{
    auto r = e.template select<S...>();
    if constexpr (sizeof...(S) == 1) { CHECK(same<V>(r, coef[(S, ...)]), "select of one element"); }
    else
    {
        uint32_t s[] = {S...};
        CHECK(r.size() == sizeof...(S), "select returns one value per element");
        for (size_t i = 0; i < sizeof...(S); ++i) CHECK(same<V>(r[i], coef[s[i]]), "select of several elements");
    }
}

template <class A, class V, uint64_t mask>
void each(ref::Rng& g, char const* an, int reps)
{
    using En = masked_t<A, V, mask>;
    constexpr size_t N = bits(mask);
    constexpr uint32_t SZ = 1u << A::metric_t::dimension;
    char b[100];
    snprintf(b, sizeof b, "entity of %s, %s, element mask 0x%llx", an, sizeof(V) == 4 ? "float" : "double", (unsigned long long)mask);
    for (int t = 0; t < reps; ++t)
    {
        c.cur = b;
        En e{};
        CHECK(En::size() == N, "size");
        std::vector<V> val(N), coef(SZ, V(0));
        std::vector<uint32_t> el;
        for (uint32_t k = 0; k < SZ && k < 64; ++k)
            if (mask >> k & 1) el.push_back(k);
        for (size_t i = 0; i < N; ++i) val[i] = value<V>(g), coef[el[i]] = val[i];
        c.R.eval(hash_bytes(val.data(), N * sizeof(V), mask * 131 + sizeof(V) + SZ));
        if constexpr (N != 0)
        {
            CHECK(sizeof(En) == N * sizeof(V), "an entity is as large as its values");
            CHECK(std::is_trivially_copyable_v<En>, "an entity is trivially copyable");
            for (size_t i = 0; i < N; ++i)
            {
                CHECK(En::elements[i] == el[i], "element list");
                CHECK(same(e[i], V(0)), "value-initialised entity is zero");
                if (t & 1) e[i] = val[i];
                else *(e.begin() + i) = val[i];
            }
            En const& ce = e;
            for (size_t i = 0; i < N; ++i)
            {
                CHECK(same(ce[i], val[i]), "indexing");
                CHECK(same(ce.data()[i], val[i]), "raw data");
                CHECK(&ce[i] == ce.data() + i, "indexing and raw data address the same place");
                CHECK(&e[i] == &ce[i], "const and mutable indexing address the same place");
            }
            size_t k = 0;
            for (auto& x : e)
            {
                CHECK(k < N && &x == &e[k], "iteration");
                ++k;
            }
            CHECK(k == N, "iteration visits every value");
            for (uint32_t q = 0; q < SZ; ++q)
            {
                CHECK(same<V>(ce.select((elem_t)q), coef[q]), "select of an element");
                V* w     = e.select((elem_t)q);
                bool has = q < 64 && (mask >> q & 1);
                CHECK((w != nullptr) == has, "writable select is null exactly for absent elements");
                if (has)
                {
                    size_t i = 0;
                    while (el[i] != q) ++i;
                    CHECK(w == &e[i], "writable select addresses the stored value");
                    V old = *w;
                    *w    = V(42);
                    CHECK(same(ce[i], V(42)) && same<V>(ce.select((elem_t)q), V(42)), "a write through select is visible");
                    *w = old;
                }
            }
            En cp = e;
            for (size_t i = 0; i < N; ++i) CHECK(same(cp[i], val[i]), "copy");
            cp[0] = V(1) + (std::isfinite(val[0]) ? V(0) : V(0));
            CHECK(same(ce[0], val[0]), "a copy is independent");
        }
        else
        {
            En const& ce = e;
            for (uint32_t q = 0; q < SZ; ++q)
            {
                CHECK(same<V>(ce.select((elem_t)q), V(0)), "select on the empty entity");
                CHECK(e.select((elem_t)q) == nullptr, "writable select on the empty entity");
            }
        }
        {
            selects<En, V, 0>(e, coef);
            selects<En, V, SZ - 1>(e, coef);
            selects<En, V, (uint32_t)((mask * 7 + 3) % SZ)>(e, coef);
            selects<En, V, 1 % SZ, 0, SZ - 1>(e, coef);
            selects<En, V, (uint32_t)((mask * 5 + 1) % SZ), (uint32_t)((mask * 11 + 2) % SZ), 2 % SZ, SZ / 2, 1 % SZ, (uint32_t)((mask + 1) % SZ)>(e, coef);
        }
        // printing
        std::ostringstream o;
        for (size_t i = 0; i < N; ++i)
        {
            if (i) o << " + ";
            o << val[i];
            if (el[i]) o << "e";
            for (uint32_t k = 0; k < 8; ++k)
                if (el[i] >> k & 1) o << k;
        }
        std::string want = N ? o.str() : "0";
        if (to_string(e) != want) { bad(("prints '" + to_string(e) + "' instead of '" + want + "'").c_str()); return; }
        ++c.compared;
        // an entity passed through an identity keeps its element list and values
        if (t == 0)
        {
            auto r = gal::detail::compute<A>([](auto x) { return x; }, e);
            CHECK(r.size() == N, "identity keeps the element list");
            if constexpr (N != 0 && decltype(r)::size() == N)
                for (size_t i = 0; i < N; ++i)
                {
                    CHECK(r.elements[i] == el[i], "identity keeps the element list");
                    CHECK(same(r[i], val[i]), "identity keeps the values");
                }
        }
    }
    c.R.count("entity_types");
}

#ifndef PART
#    define PART 0
#endif
#ifndef SALT
#    define SALT 1
#endif
template <class A, class V, size_t base, size_t... K>
void small_all(ref::Rng& g, char const* an, int reps, std::index_sequence<K...>) { (each<A, V, base + K>(g, an, reps), ...); }
template <class A, class V, int salt, size_t... K>
void sampled(ref::Rng& g, char const* an, int reps, std::index_sequence<K...>)
{
    constexpr uint32_t SZ = 1u << A::metric_t::dimension;
    constexpr uint64_t lim = SZ >= 64 ? ~uint64_t(0) : (uint64_t(1) << SZ) - 1;
    (each<A, V, (mix(K * 1000003 + salt + 7919ull * SALT) & lim & (K % 3 ? mix(K + 5555ull * salt + 31ull * SALT) : ~uint64_t(0)))>(g, an, reps), ...);
}

// named types: names, raw array and indices address the same storage
template <class X, class V, size_t N, class F>
void alias(ref::Rng& g, char const* nm, X x, F fields)
{
    c.cur = std::string(nm) + (sizeof(V) == 4 ? "<float>" : "<double>");
    CHECK(sizeof(X) == N * sizeof(V), "a named type is as large as its values");
    CHECK(X::size() == N, "size of a named type");
    X const& cx = x;
    for (int t = 0; t < 8; ++t)
    {
        std::vector<V*> f = fields(x);
        V val[N];
        for (size_t i = 0; i < N; ++i) val[i] = value<V>(g);
        c.R.eval(hash_bytes(val, sizeof val, hash_bytes(nm, strlen(nm))));
        for (size_t i = 0; i < N; ++i)
        {
            if (t & 1) x[i] = val[i];
            else *f[i] = val[i];
        }
        for (size_t i = 0; i < N; ++i)
        {
            CHECK(same(cx[i], val[i]) && same(x[i], val[i]), "index of a named type");
            CHECK(&cx[i] == &x[i], "const and mutable index of a named type");
            CHECK(same(x.data[i], val[i]), "raw array of a named type");
        }
        for (size_t k = 0; k < f.size(); ++k) CHECK(same(*f[k], val[k % N]), "name of a coordinate");
        X y = x;
        for (size_t i = 0; i < N; ++i) CHECK(same(y[i], val[i]), "copy of a named type");
    }
    c.R.count("named_types");
}

template <class V>
void all(ref::Rng& g, int reps)
{
#if PART < 4
    small_all<vga::vga_algebra, V, PART * 64>(g, "vga", reps, std::make_index_sequence<64>{});
#elif PART == 4
    sampled<pga::pga_algebra, V, 1>(g, "pga", reps, std::make_index_sequence<24>{});
    sampled<pga2::pga2_algebra, V, 2>(g, "pga2", reps, std::make_index_sequence<12>{});
#elif PART == 5
    sampled<algebra<metric<6, 0, 0>>, V, 3>(g, "m600", reps, std::make_index_sequence<4>{});
    sampled<algebra<metric<1, 1, 0>>, V, 4>(g, "m110", reps, std::make_index_sequence<12>{});
    sampled<algebra<metric<2, 2, 1>>, V, 5>(g, "m221", reps, std::make_index_sequence<6>{});
    sampled<algebra<metric<7, 1, 0>>, V, 6>(g, "m710", reps, std::make_index_sequence<3>{});
#else
    using P = std::vector<V*>;
    alias<vga::vector<V>, V, 3>(g, "vga::vector", {1, 2, 3}, [](auto& x) { return P{&x.x, &x.y, &x.z, &x.u, &x.v, &x.w}; });
    alias<vga::point<V>, V, 3>(g, "vga::point", {1, 2, 3}, [](auto& x) { return P{&x.x, &x.y, &x.z}; });
    alias<vga::rotor<V>, V, 5>(g, "vga::rotor", {1, 2, 3, 4}, [](auto& x) { return P{&x.cos_theta, &x.sin_theta, &x.x, &x.y, &x.z}; });
    alias<pga::rotor<V>, V, 5>(g, "pga::rotor", {1, 2, 3, 4}, [](auto& x) { return P{&x.cos_theta, &x.sin_theta, &x.x, &x.y, &x.z}; });
    alias<pga::translator<V>, V, 4>(g, "pga::translator", {1, 2, 3, 4}, [](auto& x) { return P{&x.d, &x.x, &x.y, &x.z}; });
    alias<pga::motor<V>, V, 8>(g, "pga::motor", {1, 2, 3, 4, 5, 6, 7, 8}, [](auto& x) { P o; for (auto& v : x.data) o.push_back(&v); return o; });
    alias<pga::plane<V>, V, 4>(g, "pga::plane", {1, 2, 3, 4}, [](auto& x) { return P{&x.d, &x.x, &x.y, &x.z}; });
    alias<pga::vector<V>, V, 3>(g, "pga::vector", {1, 2, 3}, [](auto& x) { return P{&x.x, &x.y, &x.z}; });
    alias<pga::line<V>, V, 6>(g, "pga::line", {1, 2, 3, 4, 5, 6}, [](auto& x) { return P{&x.dx, &x.dy, &x.dz, &x.mx, &x.my, &x.mz}; });
    alias<pga2::line<V>, V, 3>(g, "pga2::line", {1, 2, 3}, [](auto& x) { return P{&x.d, &x.x, &x.y}; });
    alias<pga2::point<V>, V, 2>(g, "pga2::point", {1, 2}, [](auto& x) { return P{&x.x, &x.y, &x.u, &x.v, &x.s, &x.t}; });
    alias<cga::point<V>, V, 3>(g, "cga::point", {1, 2, 3}, [](auto& x) { return P{&x.x, &x.y, &x.z, &x.u, &x.v, &x.w}; });
    // scalars
    for (int i = 0; i < 200; ++i)
    {
        c.cur = "scalar";
        V v   = value<V>(g);
        scalar<pga::pga_algebra, V> s{v};
        auto const& cs = s;
        c.R.eval(hash_bytes(&v, sizeof v, 991));
        CHECK(sizeof s == sizeof v && s.size() == 1, "size of a scalar");
        CHECK(same((V)s, v) && same(cs[0], v) && same(*cs.data(), v) && same(s.value, v) && &cs[0] == cs.data(), "value of a scalar");
        s[0] = V(7);
        CHECK(same((V)s, V(7)), "write to a scalar");
    }
#endif
}

// entities with very many components: N of the elements of A, starting at First, with stride Step
template <class A, class V, uint32_t First, uint32_t Step, size_t... I>
static void wide(ref::Rng& g, char const* name, int reps, std::index_sequence<I...>)
{
    using En = gal::entity<A, V, (gal::elem_t)(First + Step * I)...>;
    constexpr size_t N = sizeof...(I);
    constexpr uint32_t D = 1u << A::metric_t::dimension;
    c.cur = std::string("entity of ") + std::to_string(N) + " components in " + name;
    CHECK(sizeof(En) == N * sizeof(V) && En::size() == N, "size");
    for (int k = 0; k < reps; ++k)
    {
        std::vector<V> w(N);
        for (auto& v : w) v = value<V>(g);
        En e{};
        for (size_t i = 0; i < N; ++i) e[i] = w[i];
        En const& ce = e;
        c.R.eval(hash_bytes(w.data(), N * sizeof(V), N * 131 + First));
        size_t at = 0;
        for (auto& v : e) { CHECK(at < N && same(v, w[at]) && &v == &e[at], "iteration"); ++at; }
        CHECK(at == N, "iteration length");
        for (uint32_t m = 0; m < D; ++m)
        {
            bool in = m >= First && (m - First) % Step == 0 && (m - First) / Step < N;
            V want  = in ? w[(m - First) / Step] : V{};
            CHECK(same(ce.select(m), want), "select of an element");
            V* p = e.select(m);
            CHECK(in ? p == &e[(m - First) / Step] : p == nullptr, "pointer to an element");
        }
        auto r = ce.template select<First, First + Step *(N - 1), First + Step *(N / 2), First + Step *(N - 2)>();
        CHECK(same(r[0], w[0]) && same(r[1], w[N - 1]) && same(r[2], w[N / 2]) && same(r[3], w[N - 2]), "select of several elements");
        CHECK(same(ce.template select<First + Step *(N - 1)>(), w[N - 1]), "select of one element");
    }
}

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    int reps      = argc > 2 ? atoi(argv[2]) : 20;
    hostile       = argc > 3 && atoi(argv[3]);
    ref::Rng g(seed);
#if PART == 7
    wide<algebra<metric<7, 0, 0>>, float, 0, 1>(g, "m700", reps, std::make_index_sequence<128>{});
    wide<algebra<metric<4, 2, 2>>, double, 20, 1>(g, "m422", reps, std::make_index_sequence<200>{});
    wide<algebra<metric<8, 0, 0>>, double, 1, 3>(g, "m800", reps, std::make_index_sequence<80>{});
#elif PART % 2 || PART > 3
    all<float>(g, reps);
#endif
#if PART != 7 && (PART % 2 == 0 || PART > 3)
    all<double>(g, reps);
#endif
    c.R.count("compared", c.compared);
    return c.R.finish();
}
