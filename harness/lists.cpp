// Monitor of the compile-time containers and algorithms, executed at run time.  args: seed n mode
#include "ref.hpp"
#include "report.hpp"
#include <gal/algorithm.hpp>
#include <gal/crc.hpp>
#include <gal/numeric.hpp>
#include <gal/stack.hpp>
#include <gal/tuple.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <tuple>
#include <vector>

static Report R;
static std::string cur;
static bool bad(std::string const& w) { R.viol(cur + " [" + w + "]"); return false; }

// ---------------------------------------------------------------- sorting
struct Item
{
    int key, tag;
    friend bool operator<(Item const& a, Item const& b) { return a.key < b.key; }
};
static std::string show(std::vector<Item> const& v)
{
    std::string s = "{";
    for (size_t i = 0; i < v.size() && i < 40; ++i) s += std::to_string(v[i].key) + " ";
    return s + "}";
}
template <class L> bool ordered(std::vector<Item> const& in, std::vector<Item> const& out, L less, char const* what)
{
    std::vector<Item> body(out.begin() + 1, out.end() - 1);
    cur = std::string("sort ") + what + " of " + show(in);
    if (out.front().tag != -7 || out.back().tag != -7) return bad("an element outside the range changed");
    std::vector<char> seen(in.size(), 0);
    for (auto& x : body)
    {
        if (x.tag < 0 || x.tag >= (int)in.size() || seen[x.tag]++ || in[x.tag].key != x.key) return bad("not a permutation of the range");
    }
    for (size_t i = 1; i < body.size(); ++i)
        if (less(body[i], body[i - 1])) return bad("not ordered: " + show(body));
    return true;
}
static bool sort_one(std::vector<int> const& keys)
{
    std::vector<Item> in;
    for (size_t i = 0; i < keys.size(); ++i) in.push_back({keys[i], (int)i});
    R.eval(hash_bytes(keys.data(), 4 * keys.size(), keys.size()));
    auto framed = [&] {
        std::vector<Item> v{{0, -7}};
        v.insert(v.end(), in.begin(), in.end());
        v.push_back({0, -7});
        return v;
    };
    bool ok = true;
    {
        auto v = framed();
        gal::detail::sort(v.data() + 1, v.data() + 1 + in.size());
        ok = ordered(in, v, [](Item const& a, Item const& b) { return a.key < b.key; }, "ascending");
    }
    {
        auto v = framed();
        auto l = [](Item const& a, Item const& b) { return a.key > b.key; };
        gal::detail::sort(v.data() + 1, v.data() + 1 + in.size(), l);
        ok = ok && ordered(in, v, l, "by a descending comparator");
    }
    {
        auto v = framed();
        auto l = [](Item const& a, Item const& b) { return a.key / 2 != b.key / 2 ? a.key / 2 < b.key / 2 : false; };
        gal::detail::sort(v.data() + 1, v.data() + 1 + in.size(), l);
        ok = ok && ordered(in, v, l, "by a comparator with ties");
    }
    return ok;
}
static void all_words(int len, int alphabet)
{
    std::vector<int> k(len, 0);
    for (;;)
    {
        if (!sort_one(k)) return;
        int i = 0;
        while (i < len && ++k[i] == alphabet) k[i++] = 0;
        if (i == len) break;
    }
    R.count("exhaustive sort lengths");
}
static void sorting(ref::Rng& g, uint64_t n, bool exhaustive)
{
    if (exhaustive)
    {
        for (int len = 0; len <= 6; ++len) all_words(len, len ? len : 1);
        std::vector<int> p;
        for (int len = 7; len <= 8; ++len)
        {
            p.resize(len);
            for (int i = 0; i < len; ++i) p[i] = i;
            do if (!sort_one(p)) return;
            while (std::next_permutation(p.begin(), p.end()));
        }
        all_words(10, 3);
    }
    for (uint64_t t = 0; t < n; ++t)
    {
        int len = (int)g.below(g.chance(80) ? 24 : 300);
        int range = g.chance(30) ? 3 : g.chance(50) ? len + 1 : 1000000;
        std::vector<int> k(len);
        int shape = (int)g.below(6);
        for (int i = 0; i < len; ++i)
            k[i] = shape == 0 ? i : shape == 1 ? len - i : shape == 2 ? std::min(i, len - i) : shape == 3 ? i % 7 : (int)g.range(-range, range);
        if (shape < 4 && g.chance(50) && len) std::swap(k[g.below(len)], k[g.below(len)]);
        if (!sort_one(k)) return;
    }
}

// ---------------------------------------------------------------- powers
template <class T, int N, int D> void power_one(ref::Rng& g)
{
    for (int t = 0; t < 24; ++t)
    {
        T s = t == 0 ? T(1) : t == 1 ? T(2) : t == 2 ? T(0.5) : t == 3 ? T(1.5) : t == 4 ? T(3) : (T)g.real(0.3, 2.2);
        if (D == 1 && t % 2) s = -s;
        if (t == 5 && N > 0) s = 0;
        T got = gal::pow(s, std::integral_constant<int, N>{}, std::integral_constant<int, D>{});
        long double want = 1;
        if (D == 1)
        {
            for (int i = 0; i < (N < 0 ? -N : N); ++i) want *= (long double)s;
            if (N < 0) want = 1 / want;
        }
        else want = powl((long double)s, (long double)N / D);
        long double tol = (std::abs(N) + 4) * (long double)std::numeric_limits<T>::epsilon() * fabsl(want) + (sizeof(T) == 4 ? 1e-37L : 1e-300L);
        R.eval(hash_mix(hash_bytes(&s, sizeof s, N + 100), D));
        if (!(fabsl((long double)got - want) <= tol))
        {
            char b[200];
            snprintf(b, sizeof b, "power %d/%d of %.17Lg", N, D, (long double)s);
            cur = b;
            snprintf(b, sizeof b, "is %.17Lg, expected %.17Lg", (long double)got, want);
            bad(b);
            return;
        }
    }
}
template <class T, int... N> void powers(ref::Rng& g, std::integer_sequence<int, N...>)
{
    (power_one<T, N, 1>(g), ...);
    (power_one<T, -N, 1>(g), ...);
    (power_one<T, (N % 12), 2>(g), ...);
    (power_one<T, -(N % 12), 2>(g), ...);
    (power_one<T, (N % 9), 3>(g), ...);
    (power_one<T, (N % 7), 4>(g), ...);
}

// ---------------------------------------------------------------- words
static void words(ref::Rng& g, uint64_t n)
{
    auto word = [&](uint32_t w) {
        char b[80];
        snprintf(b, sizeof b, "word 0x%08x", w);
        cur = b;
        uint32_t pop = 0, lead = 0;
        for (int i = 0; i < 32; ++i)
            if (w >> i & 1) ++pop, lead = i;
        R.eval(hash_mix(7, w));
        if (gal::pop_count(w) != pop) return bad("number of set bits");
        if (w && gal::leading_set_index(w) != lead) return bad("index of the leading set bit");
        if (gal::rot32(w) != (w >> 8 | w << 24)) return bad("rotation by a byte");
        if (w <= 0x80000000u)
        {
            uint64_t p = 1;
            while (p < w) p *= 2;
            if (gal::next_pow_2(w) != (w ? (uint32_t)p : 0u)) return bad("next power of two, 32 bits");
        }
        for (uint64_t big : {(uint64_t)w << (w % 31), (uint64_t)(w * 0x9e3779b97f4a7c15ull) >> (1 + w % 63), ((uint64_t)w << (w % 30)) + 1, (uint64_t)1 << (w % 63), ((uint64_t)1 << (w % 63)) + 1, ((uint64_t)1 << (w % 63)) - 1})
        {
            if (big > (uint64_t)1 << 63) continue;
            uint64_t p = 1;
            while (p < big) p *= 2;
            if (gal::next_pow_2(big) != (big ? p : 0)) return bad("next power of two, 64 bits");
        }
        if (w < 0xfffffff0u)
        {
            uint32_t e = w + 1;
            while (__builtin_popcount(e) & 1) ++e;
            if (pop % 2 == 0 && gal::next_even(w) != e) return bad("next word with an even number of bits");
        }
        uint32_t c = ~0u;
        for (int i = 0; i < 4; ++i)
        {
            c ^= w >> (8 * i) & 0xff;
            for (int k = 0; k < 8; ++k) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1;
        }
        if (gal::detail::crc32(w) != ~c) return bad("checksum of a word");
        return true;
    };
    for (uint32_t w = 0; w < 70000; ++w)
        if (!word(w)) return;
    for (int i = 0; i < 32; ++i)
        for (int j = -2; j <= 2; ++j)
            if (!word((1u << i) + j)) return;
    for (uint64_t t = 0; t < n; ++t)
        if (!word((uint32_t)g.next() >> g.below(32))) return;
    for (int b = 0; b < 256; ++b)
    {
        uint32_t c = ~0u ^ b;
        for (int k = 0; k < 8; ++k) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1;
        cur = "byte " + std::to_string(b);
        if (gal::detail::crc32_8((uint8_t)b) != ~c) { bad("checksum of a byte"); return; }
    }
}

// ---------------------------------------------------------------- stack
static void stacks(ref::Rng& g, uint64_t n)
{
    for (uint64_t t = 0; t < n; ++t)
    {
        gal::detail::stack<int, 32> s{};
        std::vector<int> m;
        std::string hist;
        for (int step = 0; step < 60; ++step)
        {
            int op = (int)g.below(8);
            cur = "stack history " + hist;
            if (op < 4 && m.size() < 32) { int x = (int)g.range(-100, 100); s.push(x); m.push_back(x); hist += "push "; }
            else if (op == 4 && !m.empty()) { int x = m.back(); m.pop_back(); hist += "pop "; if (s.pop() != x) { bad("pop does not return the last element"); return; } }
            else if (op == 5 && !m.empty())
            {
                size_t k = 1 + g.below(m.size());
                int x = m[m.size() - k];
                m.resize(m.size() - k);
                hist += "pop(" + std::to_string(k) + ") ";
                if (s.pop(k) != x) { bad("popping several does not return the deepest"); return; }
            }
            else if (op == 6 && g.chance(10)) { s.clear(); m.clear(); hist += "clear "; }
            else if (op == 7 && !m.empty()) { size_t i = g.below(m.size()); int x = (int)g.range(-9, 9); s[i] = x; m[i] = x; hist += "set "; }
            if (s.count != m.size() || s.empty() != m.empty()) { bad("size"); return; }
            auto const& cs = s;
            for (size_t i = 0; i < m.size(); ++i)
                if (s[i] != m[i] || cs[i] != m[i] || cs.peek(i + 1) != m[m.size() - 1 - i]) { bad("contents"); return; }
            if (!m.empty() && (s.peek() != m.back() || cs.peek() != m.back())) { bad("peek"); return; }
            R.eval(hash_bytes(m.data(), 4 * m.size(), op + 3));
        }
    }
}

// ---------------------------------------------------------------- tuples
template <class A, class B> bool same_v(A const& a, B const& b) { return std::is_same_v<A, B> && a == (A)b; }
template <size_t Off, class G, class S, size_t... I> bool equal_range(G const& t, S const& m, std::index_sequence<I...>)
{
    return (same_v(t.template get<I>(), std::get<Off + I>(m)) && ... && true);
}
template <size_t Off, size_t N, class G, class S> bool is_slice(G const& t, S const& m)
{
    if constexpr (G::size() != N) return false;
    else return equal_range<Off>(t, m, std::make_index_sequence<N>{});
}
template <class T> struct adder
{
    int k;
    std::decay_t<T> operator()(std::decay_t<T> v) const { return (std::decay_t<T>)(v + k); }
};
template <size_t I, class G, class M> bool at(G const& t, M const& m)
{
    constexpr size_t N = std::tuple_size_v<M>;
    using T = std::tuple_element_t<I, M>;
    if (!same_v(t.template get<I>(), std::get<I>(m))) return bad("get " + std::to_string(I));
    // set changes one element and nothing else
    auto c = t;
    auto mc = m;
    std::get<I>(mc) = (T)(std::get<I>(m) + 1);
    c.template set<I>((T)(std::get<I>(m) + 1));
    if (!is_slice<0, N>(c, mc)) return bad("set " + std::to_string(I));
    c = t;
    c.template get<I>() = (T)(std::get<I>(m) + 1);
    if (!is_slice<0, N>(c, mc)) return bad("assignment through get " + std::to_string(I));
    auto s = t.template split<I>();
    if (!is_slice<0, I>(s.first, m) || !is_slice<I, N - I>(s.second, m)) return bad("split at " + std::to_string(I));
    auto d = t.template split_drop<I>();
    if (!is_slice<0, I>(d.first, m) || !is_slice<I + 1, N - I - 1>(d.second, m)) return bad("split dropping " + std::to_string(I));
    return true;
}
template <class M, class T, size_t... I> constexpr size_t first_of(std::index_sequence<I...>)
{
    size_t r = sizeof...(I);
    ((r == sizeof...(I) && std::is_same_v<std::tuple_element_t<I, M>, T> ? (r = I) : 0), ...);
    return r;
}
template <class T, class G, class M> bool by_type(G const& t, M const& m)
{
    constexpr size_t N = std::tuple_size_v<M>, I = first_of<M, T>(std::make_index_sequence<N>{});
    if constexpr (I < N)
    {
        if (G::template find_t<T>() != I) return bad("find by type");
        auto d = t.template split_at_type<T>();
        if (!is_slice<0, I>(d.first, m) || !is_slice<I + 1, N - I - 1>(d.second, m)) return bad("split at a type");
    }
    return true;
}
template <class... T, size_t... I> bool tuple_one(ref::Rng& g, std::index_sequence<I...>)
{
    using M = std::tuple<T...>;
    constexpr size_t N = sizeof...(T);
    M m{(T)g.range(-50, 50)...};
    auto t = std::apply([](auto... x) { return gal::make_tuple(x...); }, m);
    cur = "tuple of " + std::to_string(N) + " elements {" + (std::to_string((int)std::get<I>(m)) + ... + std::string()) + "}";
    R.eval(hash_mix(N + 5, (((uint64_t)(int)std::get<I>(m) * 0x9E3779B97F4A7C15ull * (I + 1)) + ... + 0)));
    if (t.size() != N || !gal::is_tuple_v<decltype(t)>) return bad("size");
    if (!is_slice<0, N>(t, m)) return bad("construction");
    if (!(at<I>(t, m) && ...)) return false;
    if (!(by_type<T>(t, m) && ...)) return false;
    auto all = t.template split<N>();
    if (!is_slice<0, N>(all.first, m) || all.second.size() != 0) return bad("split at the end");
    short extra = 77;
    auto pu = t.push(extra);
    if (!is_slice<0, N + 1>(pu, std::tuple_cat(std::make_tuple(extra), m))) return bad("push");
    auto ap = t.append(extra);
    if (!is_slice<0, N + 1>(ap, std::tuple_cat(m, std::make_tuple(extra)))) return bad("append");
    if (!is_slice<0, N>(t, m)) return bad("push or append changed the tuple");
    if (!same_v(ap.back(), extra)) return bad("back");
    auto back = pu.pop();
    if (!same_v(back.first, extra) || !is_slice<0, N>(back.second, m)) return bad("pop after push");
    auto seq = t.apply([](auto... x) { return std::make_tuple(x...); });
    if (!(seq == m) || !std::is_same_v<decltype(seq), M>) return bad("apply");
    auto rev = t.apply_reverse([](auto... x) { return std::make_tuple(x...); });
    if (!(same_v(std::get<N - 1 - I>(rev), std::get<I>(m)) && ...)) return bad("apply in reverse");
    auto mu = t;
    mu.template mutate<adder>(3);
    if (!(same_v(mu.template get<I>(), (T)(std::get<I>(m) + 3)) && ...)) return bad("mutate");
    auto p = gal::make_pair(t, extra);
    if (!is_slice<0, N>(p.first, m) || p.second != extra || !gal::is_pair_v<decltype(p)>) return bad("pair");
    return true;
}
template <class... T> bool shape(ref::Rng& g) { return tuple_one<T...>(g, std::index_sequence_for<T...>{}); }
static void tuples(ref::Rng& g, uint64_t n)
{
    using C = signed char;
    for (uint64_t t = 0; t < n; ++t)
    {
        bool ok = shape<int>(g) && shape<double>(g) && shape<int, int>(g) && shape<int, C>(g) && shape<C, double, int>(g) && shape<int, int, int>(g) &&
                  shape<float, int, long, C>(g) && shape<long, long, int, int, C>(g) && shape<int, C, int, double, C, long>(g) && shape<double, float, C, int, long, short, C>(g) &&
                  shape<int, int, int, int, int, int, int, C>(g) && shape<C, int, double, C, int, double, C, int, double>(g) && shape<long, int, int, C, short, int, float, double, int, C, unsigned, int>(g);
        if (!ok) return;
        gal::tuple<> e{};
        auto one = e.push(5);
        auto two = e.append(6);
        cur = "empty tuple";
        if (e.size() != 0 || one.size() != 1 || one.get<0>() != 5 || two.get<0>() != 6 || one.pop().first != 5 || one.pop().second.size() != 0) { bad("operations"); return; }
    }
}

int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, n = argc > 2 ? strtoull(argv[2], 0, 10) : 1000;
    std::string mode = argc > 3 ? argv[3] : "all";
    ref::Rng g(seed);
    if (mode == "sort" || mode == "all") sorting(g, n, mode == "all");
    if (mode == "pow" || mode == "all")
        for (uint64_t i = 0; i < 1 + n / 500; ++i)
        {
            powers<double>(g, std::make_integer_sequence<int, 41>{});
            powers<float>(g, std::make_integer_sequence<int, 25>{});
        }
    if (mode == "words" || mode == "all") words(g, n * 10);
    if (mode == "stack" || mode == "all") stacks(g, n);
    if (mode == "tuple" || mode == "all") tuples(g, n);
    return R.finish();
}
